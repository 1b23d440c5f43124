"""Program model and path-sensitive dataflow engine.

The engine is a worklist dataflow analysis over the control flow graph.  The
abstract state is
  env    SSA value -> symbolic name of the value (linear normal form)
  mem    address name -> value name, for stores seen on the path
  ver    (address class, root) -> site of the last write that may have hit it
  facts  linear term -> interval + excluded constants (from branch conditions)
  t      the rule's own typestate
States that reach a block are kept apart up to a bound and joined afterwards
(facts intersected, differing values forgotten); typestates are never merged.
Loop-carried values are forgotten on back edges, so the domain is finite.  Branch
edges contradicted by the facts are not followed.
"""
import heapq
from collections import defaultdict
from functools import lru_cache

# ------------------------------------------------------------------ expressions
C0 = ("c", 0)
C1 = ("c", 1)


def const(n):
    return ("c", n)


def is_c(e):
    return e[0] == "c"


def lin_parts(e):
    """-> (const, {atom: coef})"""
    if e[0] == "c":
        return e[1], {}
    if e[0] == "L":
        return e[1], dict(e[2])
    return 0, {e: 1}


_sk = {}


def skey(a):
    k = _sk.get(a)
    if k is None:
        k = repr(a)
        _sk[a] = k
    return k


def mk_lin(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return ("L", c, tuple(sorted(d.items(), key=lambda x: skey(x[0]))))


def add(a, b, kb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + kb * k
    return mk_lin(ca + kb * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return C0
    c, d = lin_parts(a)
    return mk_lin(c * k, {t: v * k for t, v in d.items()})


def mul(a, b):
    """product in polynomial normal form: monomials are ("op","mul",f1,f2,...) with sorted factors"""
    if is_c(a):
        return scale(b, a[1])
    if is_c(b):
        return scale(a, b[1])
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    if len(da) * len(db) > 24:
        x, y = sorted((a, b), key=skey)
        return ("op", "mul", x, y)
    r = {}
    for x, k in da.items():
        r[x] = r.get(x, 0) + k * cb
    for y, k in db.items():
        r[y] = r.get(y, 0) + k * ca
    for x, k in da.items():
        for y, m in db.items():
            f = factors(x) + factors(y)
            t = ("op", "mul") + tuple(sorted(f, key=skey))
            r[t] = r.get(t, 0) + k * m
    return mk_lin(ca * cb, r)


def factors(x):
    return x[2:] if x[0] == "op" and x[1] == "mul" else (x,)


def mk_div(a, b):
    """a / b where every term of a contains b as a factor (b != 0); None if not"""
    if is_c(b):
        c, d = lin_parts(a)
        if b[1] > 1 and d and all(k % b[1] == 0 for k in d.values()) and c % b[1] == 0:
            return mk_lin(c // b[1], {t: k // b[1] for t, k in d.items()})
        return None
    c, d = lin_parts(a)
    if c or not d:
        return None
    bf = factors(b) if b[0] != "L" else (b,)
    r = {}
    const_ = 0
    for t, k in d.items():
        f = list(factors(t))
        for x in bf:
            if x not in f:
                return None
            f.remove(x)
        if not f:
            const_ += k
            continue
        n = f[0] if len(f) == 1 else ("op", "mul") + tuple(f)
        r[n] = r.get(n, 0) + k
    return mk_lin(const_, r)


BOOLOPS = {"cmp", "not"}


def is_bool(e):
    return e[0] in ("cmp", "not") or (e[0] == "op" and (e[1] in ("band", "bor", "bxor", "fcmp") or e[1].startswith("ovf:"))) or (
        e[0] == "c" and e[1] in (0, 1))


def mk_not(e):
    if e[0] == "c":
        return C0 if e[1] else C1
    if e[0] == "not":
        return e[1]
    if e[0] == "cmp" and e[1] == "lt":
        # !(L<0) == -L-1<0   (integers)
        return ("cmp", "lt", add(scale(e[2], -1), const(-1)))
    return ("not", e)


def _norm_sign(l):
    c, d = lin_parts(l)
    if not d:
        return l
    first = sorted(d.items(), key=lambda x: skey(x[0]))[0]
    if first[1] < 0:
        return scale(l, -1)
    return l


def mk_cmp(pred, a, b):
    d = sub(a, b)
    if pred in ("eq", "ne"):
        if is_c(d):
            r = (d[1] == 0)
            return C1 if r == (pred == "eq") else C0
        # bool == 0/1
        c, t = lin_parts(d)
        if len(t) == 1:
            (at, k), = t.items()
            if abs(k) == 1 and is_bool(at):
                v = -c * k
                if v == 0:
                    return at if pred == "ne" else mk_not(at)
                if v == 1:
                    return at if pred == "eq" else mk_not(at)
                if v == -1:  # i1 true printed as -1
                    return at if pred == "eq" else mk_not(at)
        if not t:
            return C0
        # distinct objects
        e = ("cmp", "eq", _norm_sign(d))
        if len(t) == 1:
            (at, k), = t.items()
            if at[0] in ("al", "glob", "fn", "str") and c == 0:
                e = C0
            if at[0] == "fld" and c == 0:
                e = C0
        return e if pred == "eq" else mk_not(e)
    sg = pred[0]
    op = pred[1:]
    if sg == "u":
        if is_c(b):
            if op == "lt" and b[1] == 1 or op == "le" and b[1] == 0:
                return mk_cmp("eq", a, C0)
            if op == "gt" and b[1] == 0 or op == "ge" and b[1] == 1:
                return mk_cmp("ne", a, C0)
            if op == "ge" and b[1] == 0:
                return C1
            if op == "lt" and b[1] == 0:
                return C0
        if is_c(a):
            if op == "gt" and a[1] == 1 or op == "ge" and a[1] == 0:
                return mk_cmp("eq", b, C0)
            if op == "lt" and a[1] == 0 or op == "le" and a[1] == 1:
                return mk_cmp("ne", b, C0)
    if op == "lt":
        l = d
    elif op == "le":
        l = add(d, const(-1))
    elif op == "gt":
        l = scale(d, -1)
    else:
        l = add(scale(d, -1), const(-1))
    if is_c(l):
        if sg == "u":
            pass
        return C1 if l[1] < 0 else C0
    return ("cmp", "lt", l)


def as_bool(e):
    """e used as a condition (e != 0)"""
    if e[0] == "c":
        return C1 if e[1] else C0
    if is_bool(e):
        return e
    return mk_cmp("ne", e, C0)


_tags = {}


def tags(e):
    """instruction sites an expression depends on"""
    r = _tags.get(e)
    if r is not None:
        return r
    k = e[0]
    if k in ("c", "arg", "al", "glob", "fn", "str", "undef"):
        r = frozenset()
    elif k == "ld":
        r = tags(e[1]) | {e[2]}
    elif k == "call":
        r = frozenset({e[2]})
        for a in e[3]:
            r |= tags(a)
    elif k == "in":
        r = frozenset()
    elif k == "phi" or k == "ssa" or k == "old" or k == "join" or k == "memphi":
        r = frozenset({("p", e[1])})
    elif k == "L":
        r = frozenset()
        for a, _ in e[2]:
            r |= tags(a)
    else:
        r = frozenset()
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                r |= tags(x)
    _tags[e] = r
    return r


def walk(e):
    """all sub-expressions"""
    yield e
    k = e[0]
    if k == "L":
        for a, _ in e[2]:
            yield from walk(a)
    elif k == "call":
        for a in e[3]:
            yield from walk(a)
    elif k == "ld":
        yield from walk(e[1])
    elif k in ("c", "arg", "al", "glob", "fn", "str", "undef", "in", "phi", "ssa", "old", "join", "memphi"):
        return
    else:
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                yield from walk(x)


def mulall(xs):
    r = C1
    for x in xs:
        r = mul(r, x)
    return r


def div(a, b):
    if is_c(a) and a[1] == 0:
        return C0
    q = mk_div(a, b)
    return q if q is not None else ("op", "div", a, b)


_un = {}


def unver(e):
    """e with the versions of its loads forgotten (identity of a lock or object
    whose pointer field is re-read after another thread may have run)"""
    r = _un.get(e)
    if r is not None:
        return r
    k = e[0]
    if k == "ld":
        r = ("ld", unver(e[1]), 0)
    elif k == "L":
        d = {}
        for a, c in e[2]:
            a = unver(a)
            d[a] = d.get(a, 0) + c
        r = mk_lin(e[1], d)
    elif k == "call":
        r = e[:3] + (tuple(unver(a) for a in e[3]),) + e[4:]
    elif k in ("c", "arg", "al", "glob", "fn", "str", "undef", "in", "phi", "ssa", "old", "join", "memphi"):
        r = e
    elif k == "op" and e[1] == "mul":
        r = mulall(unver(x) for x in e[2:])
    elif k == "op" and e[1] == "div":
        r = div(unver(e[2]), unver(e[3]))
    else:
        r = tuple(unver(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)
    _un[e] = r
    return r


_unf = {}


def unver_fields(e, prefixes):
    """like unver, for loads of the named fields only"""
    key = (e, prefixes)
    r = _unf.get(key)
    if r is not None:
        return r
    k = e[0]
    f = lambda x: unver_fields(x, prefixes)
    if k == "ld":
        a = f(e[1])
        r = ("ld", a, 0 if addr_class(a).startswith(prefixes) else e[2])
    elif k == "L":
        d = {}
        for a, c in e[2]:
            a = f(a)
            for t, tc in lin_parts(a)[1].items():
                d[t] = d.get(t, 0) + c * tc
        r = mk_lin(e[1], d)
    elif k == "call":
        r = e[:3] + (tuple(f(a) for a in e[3]),) + e[4:]
    elif k in ("c", "arg", "al", "glob", "fn", "str", "undef", "in", "phi", "ssa", "old", "join", "memphi"):
        r = e
    elif k == "op" and e[1] == "mul":
        r = mulall(f(x) for x in e[2:])
    elif k == "op" and e[1] == "div":
        r = div(f(e[2]), f(e[3]))
    else:
        r = tuple(f(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)
    _unf[key] = r
    return r


def mentions(e, pred):
    return any(pred(x) for x in walk(e))


def show(e, depth=0):
    if depth > 8:
        return "..."
    k = e[0]
    if k == "c":
        return str(e[1])
    if k == "arg":
        return e[2] if len(e) > 2 and e[2] else "arg%d" % e[1]
    if k == "fld":
        return "&%s->%s" % (show(e[2], depth + 1), e[1].split(".", 1)[1])
    if k == "ld":
        a = e[1]
        if a[0] == "fld":
            return "%s->%s" % (show(a[2], depth + 1), a[1].split(".", 1)[1])
        return "*(%s)" % show(a, depth + 1)
    if k == "L":
        s = " + ".join(("%s" % show(a, depth + 1)) if c == 1 else "%d*%s" % (c, show(a, depth + 1)) for a, c in e[2])
        return "(%s%s)" % (s, " + %d" % e[1] if e[1] else "")
    if k == "call":
        return "%s(%s)" % (e[1] if isinstance(e[1], str) else show(e[1], depth + 1), ", ".join(show(a, depth + 1) for a in e[3]))
    if k == "cmp":
        return "(%s %s 0)" % (show(e[2], depth + 1), {"eq": "==", "lt": "<"}[e[1]])
    if k == "not":
        return "!" + show(e[1], depth + 1)
    if k == "op":
        return "%s(%s)" % (e[1], ", ".join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in e[2:]))
    if k in ("glob", "fn"):
        return e[1]
    if k == "str":
        return repr(e[1])
    return "%s%s" % (k, "_".join(str(x) for x in e[1:] if not isinstance(x, tuple)))


# address classes -----------------------------------------------------------------
@lru_cache(maxsize=None)
def addr_class(a, llty="?"):
    k = a[0]
    if k == "fld":
        return a[1]
    if k == "al":
        return "al:%s" % (a[1],)
    if k == "glob":
        return "g:" + a[1]
    if k == "L":
        for t, _ in a[2]:
            if t[0] in ("fld", "al", "glob"):
                return addr_class(t)
    return "*"


@lru_cache(maxsize=None)
def addr_root(a):
    k = a[0]
    if k == "fld":
        return addr_root(a[2])
    if k in ("al", "arg", "glob"):
        return a
    if k == "ld":
        return addr_root(a[1])
    if k == "L":
        for t, _ in a[2]:
            if t[0] in ("fld", "al", "glob", "arg"):
                return addr_root(t)
        for t, _ in a[2]:
            if t[0] == "ld":
                return addr_root(t)
    return None


def _fresh(a):
    """the allocation call an address is derived from"""
    while True:
        if a[0] == "fld":
            a = a[2]
        elif a[0] == "L":
            t = [x for x, k in a[2] if x[0] in ("call", "fld") and k == 1]
            if len(t) != 1 or len(a[2]) > 1 and any(x[0] not in ("call", "fld", "in", "arg") for x, _ in a[2]):
                return None
            a = t[0]
        else:
            return a if a[0] == "call" and a[1] in ("malloc", "calloc") or a[0] in ("al", "glob") else None


def disjoint(a, b):
    if a == b:
        return False
    fa, fb = _fresh(a), _fresh(b)
    if fa is not None and fb is not None and fa != fb and "call" in (fa[0], fb[0]):
        return True
    d = sub(a, b)
    if is_c(d):
        return d[1] != 0
    if a[0] == "fld" and b[0] == "fld" and a[1] == b[1]:
        x = sub(a[2], b[2])
        if is_c(x):
            return x[1] != 0
    ra, rb = addr_root(a), addr_root(b)
    # distinct local objects / distinct parameters (the sources mark them restrict)
    da = a[0] == "al" or (a[0] == "fld" and a[2][0] in ("al", "arg"))
    db = b[0] == "al" or (b[0] == "fld" and b[2][0] in ("al", "arg"))
    if da and db and ra is not None and rb is not None and ra != rb:
        return True
    return False


# ------------------------------------------------------------------ program model
class Inst:
    __slots__ = ("id", "op", "ty", "line", "infn", "il", "a", "callee", "succ", "cases", "dflt", "pred", "aty",
                 "gty", "rmw", "nsw", "ix", "blk", "idx")

    def __init__(self, j, blk, idx):
        self.id = j["id"]
        self.op = j["op"]
        self.ty = j.get("ty")
        self.line = j.get("l", 0)
        self.infn = j.get("in")
        self.il = j.get("il")
        self.a = j.get("a", [])
        c = j.get("callee")
        self.callee = c
        self.succ = j.get("succ")
        self.cases = j.get("cases")
        self.dflt = j.get("def")
        self.pred = j.get("pred")
        self.aty = j.get("aty")
        self.gty = j.get("gty")
        self.rmw = j.get("rmw")
        self.nsw = j.get("nsw")
        self.ix = j.get("ix")
        self.blk = blk
        self.idx = idx

    def callee_name(self):
        if self.op in ("call", "invoke") and isinstance(self.callee, list) and self.callee[0] == "f":
            return self.callee[1]
        return None


class Fn:
    def __init__(self, name, j, prog):
        self.name = name
        self.prog = prog
        self.src = j["src"]
        self.file = j["file"]
        self.line = j["line"]
        self.args = j["args"]
        self.rety = j["rety"]
        self.ret = j["ret"]
        self.rec = j["rec"]
        self.addr_taken = j["addr"]
        self.anchor = j["anchor"]
        self.names = {int(k): v for k, v in j["names"].items()}
        self.blocks = [[Inst(i, b, k) for k, i in enumerate(bb)] for b, bb in enumerate(j["blocks"])]
        self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b, bb in enumerate(self.blocks):
            t = bb[-1]
            if t.op == "switch":
                s = [c[1] for c in t.cases] + [t.dflt]
            else:
                s = t.succ or []
            for x in dict.fromkeys(s):
                self.succ[b].append(x)
                self.pred[x].append(b)
        # RPO
        seen = set()
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        self.order = list(reversed(post))
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    changed = True
        self.idom = idom
        # loops
        self.loops = {}
        for b in self.order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += [p for p in self.pred[x] if p in self.rpo]
        # irreducible retreating edges treated as back edges to be safe
        self.back = set()
        for b in self.order:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    self.back.add((b, s))
        # liveness of SSA ids
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = defaultdict(set)  # pred block -> ids
        for b, bb in enumerate(self.blocks):
            for i in bb:
                if i.op == "phi":
                    for p in i.a:
                        if isinstance(p[2], int):
                            phiuse[p[1]].add(p[2])
                else:
                    for o in i.a:
                        if isinstance(o, int) and o not in dfn[b]:
                            use[b].add(o)
                    if isinstance(i.callee, int) and i.callee not in dfn[b]:
                        use[b].add(i.callee)
                dfn[b].add(i.id)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set(phiuse[b])
                for s in self.succ[b]:
                    out |= live[s]
                nl = use[b] | (out - dfn[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        for b, bb in enumerate(self.blocks):      # phi values arrive with the state
            for i in bb:
                if i.op != "phi":
                    break
                live[b] = live[b] | {i.id}
        self.live = live
        self.defs = {i.id: i for bb in self.blocks for i in bb}
        # induction variables: header phis every back edge advances by one constant
        self.affine = {}
        for h in self.loops:
            for i in self.blocks[h]:
                if i.op != "phi":
                    break
                steps = {self._step(p[2], i.id) for p in i.a if (p[1], h) in self.back}
                if len(steps) == 1 and None not in steps and 0 not in steps:
                    self.affine.setdefault(h, {})[i.id] = steps.pop()

    def _step(self, o, phi, depth=0):
        """constant c when operand o is phi + c"""
        if o == phi:
            return 0
        d = self.defs.get(o) if isinstance(o, int) else None
        if d is None or depth > 6:
            return None
        if d.op in ("freeze", "bitcast"):
            return self._step(d.a[0], phi, depth + 1)
        if d.op in ("add", "sub"):
            for x, y in ((0, 1), (1, 0)):
                if isinstance(d.a[y], list) and d.a[y][0] == "i" and (d.op == "add" or y == 1):
                    s = self._step(d.a[x], phi, depth + 1)
                    return None if s is None else s + (d.a[y][1] if d.op == "add" else -d.a[y][1])
            return None
        if d.op == "getelementptr" and len(d.a) == 2 and isinstance(d.a[1], list) and d.a[1][0] == "i":
            sz = self.prog.sizeof(d.gty)
            s = self._step(d.a[0], phi, depth + 1)
            return None if s is None or sz is None else s + sz * d.a[1][1]
        return None

    def dominates(self, a, b):
        if a == b:
            return True
        if b not in self.idom:
            return False
        while b != 0:
            b = self.idom[b]
            if b == a:
                return True
        return False

    def insts(self):
        for bb in self.blocks:
            yield from bb

    def loc(self, inst):
        if inst is None:
            return "%s:%d (%s)" % (self.relfile(), self.line, self.src)
        if inst.infn:
            return "%s:%d (%s, inlined into %s at line %s)" % (self.prog.file_of(inst.infn, self), inst.line, inst.infn, self.src, inst.il)
        return "%s:%d (%s)" % (self.relfile(), inst.line, self.src)

    def relfile(self):
        return self.prog.rel(self.file)

    def calls(self):
        for i in self.insts():
            if i.op in ("call", "invoke"):
                yield i


# externals that can change any shared field because another thread may run
SYNC = {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_join",
        "pthread_mutex_unlock"}
ARITH = {"add", "sub", "mul", "shl", "sdiv", "srem", "udiv", "urem", "extractvalue", "trunc"}
NORETURN = {"exit", "_exit", "abort", "__assert_fail", "pthread_exit", "_Exit"}
PURE = {"strlen", "strcmp", "strcasecmp", "strncmp", "strncasecmp", "memcmp", "isspace", "isdigit", "isalpha", "tolower", "toupper", "strchr",
        "strrchr", "strstr", "__ctype_b_loc", "__errno_location", "fabs", "floor", "ceil", "log", "pow", "__ctype_tolower_loc",
        "__ctype_toupper_loc", "getpagesize"}


class Prog:
    def __init__(self, facts, root="/repo"):
        self.root = root.rstrip("/") + "/"
        self.enums = facts["enums"]
        self.structs = facts["structs"]
        self.globals = facts["globals"]
        self.decls = facts["decls"]
        self.fns = {}
        self._raw = facts["fns"]
        self.enumval = {}
        for e in self.enums.values():
            for k, v in e.items():
                self.enumval.setdefault(k, v)
        self._mod = None

    def rel(self, f):
        return f[len(self.root):] if f.startswith(self.root) else f

    def file_of(self, fname, dflt):
        j = self._raw.get(fname)
        return self.rel(j["file"]) if j else dflt.relfile()

    def has(self, name):
        return name in self._raw

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            if name not in self._raw:
                from .facts import AnalysisError
                raise AnalysisError("function %s not found in the sources (anchor vanished)" % name)
            f = self.fns[name] = Fn(name, self._raw[name], self)
        return f

    def names(self, files=None):
        for n, j in self._raw.items():
            if files is None or any(self.rel(j["file"]).startswith(x) for x in files):
                yield n

    # ---- who calls / modset
    def modsets(self):
        """name -> (set of address classes possibly written, clobbers_everything)"""
        if self._mod is not None:
            return self._mod
        direct = {}
        calls = {}
        indirect = set()
        extw = defaultdict(set)
        for n in self._raw:
            w = set()
            cs = set()
            j = self._raw[n]
            defs = {}
            for bb in j["blocks"]:
                for i in bb:
                    defs[i["id"]] = i

            def cls(o, depth=0):
                if isinstance(o, list):
                    if o[0] == "g":
                        return "g:" + o[1]
                    return "*"
                d = defs.get(o)
                if d is None:
                    return "*"
                if d["op"] == "call":
                    c = d.get("callee")
                    if isinstance(c, list) and c[0] == "f" and c[1].startswith("fld:"):
                        return c[1][4:]
                    return "*"
                if d["op"] == "alloca":
                    return None
                if d["op"] in ("getelementptr", "bitcast") and depth < 8:
                    return cls(d["a"][0], depth + 1)
                return "*"
            for i in defs.values():
                if i["op"] == "store":
                    c = cls(i["a"][1])
                    if c:
                        w.add(c)
                elif i["op"] in ("atomicrmw", "cmpxchg"):
                    c = cls(i["a"][0])
                    if c:
                        w.add(c)
                elif i["op"] in ("call", "invoke"):
                    c = i.get("callee")
                    if isinstance(c, list) and c[0] == "f":
                        nm = c[1]
                        if nm.startswith("fld:") or nm in PURE:
                            continue
                        if nm in self._raw:
                            cs.add(nm)
                        else:
                            if nm in SYNC:
                                continue
                            for a in i["a"]:
                                if isinstance(a, int) or (isinstance(a, list) and a[0] == "g"):
                                    cc = cls(a)
                                    if cc:
                                        w.add(cc)
                                    # memset(ptr) of a struct: all its fields unknown
                                    if nm in ("memset", "llvm.memset.p0.i64", "memcpy", "llvm.memcpy.p0.p0.i64", "memmove", "llvm.memmove.p0.p0.i64") and a is i["a"][0] and cc == "*":
                                        w.add("<mem>")
                    elif isinstance(c, int):
                        indirect.add(n)
            direct[n] = w
            calls[n] = cs
        # indirect calls: assume any address-taken repo function
        at = [n for n, j in self._raw.items() if j["addr"]]
        res = {n: set(w) for n, w in direct.items()}
        for n in indirect:
            calls[n] |= set(at)
        ch = True
        while ch:
            ch = False
            for n in res:
                s = res[n]
                l = len(s)
                for c in calls[n]:
                    if c != n:
                        s |= res[c]
                if len(s) != l:
                    ch = True
        self._mod = res
        self._calls = calls
        return res

    def callgraph(self):
        self.modsets()
        return self._calls

    def sizeof(self, ty):
        ty = ty.strip()
        if ty == "ptr":
            return 8
        if ty.startswith("i") and ty[1:].isdigit():
            return max(1, int(ty[1:]) // 8)
        if ty == "double":
            return 8
        if ty == "float":
            return 4
        if ty.startswith("["):
            n, rest = ty[1:-1].split(" x ", 1)
            return int(n) * self.sizeof(rest)
        if ty.startswith("%"):
            nm = ty[1:].strip('"')
            for p in ("struct.", "class.", "union."):
                if nm.startswith(p):
                    nm = nm[len(p):]
            nm2 = nm
            if "." in nm2 and nm2.rsplit(".", 1)[1].isdigit():
                nm2 = nm2.rsplit(".", 1)[0]
            s = self.structs.get(nm2)
            if s:
                return s["size"]
        return None


class St:
    __slots__ = ("env", "mem", "ver", "facts", "t", "seen", "trail", "prev", "linit")

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.facts = dict(self.facts)
        s.t = self.t
        s.seen = self.seen
        s.trail = self.trail
        s.prev = self.prev
        s.linit = dict(self.linit)
        return s


class Report:
    def __init__(self, rule, fn, inst, msg, trail, instance=""):
        self.rule = rule
        self.fn = fn
        self.inst = inst
        self.msg = msg
        self.trail = trail
        self.instance = instance

    def where(self):
        return self.fn.loc(self.inst)

    def key(self):
        return (self.rule, self.fn.src, self.instance or self.msg)


class Rule:
    """Base class: override the callbacks that matter."""
    name = "rule"
    cap = 48           # states kept apart per block
    clobber_unlock = True
    arith = None                # arith(an, st, inst): called for integer arithmetic
    pure_callbacks = False      # calls through a pointer leave the memory looked at alone

    def start(self, an):
        return ()

    def entry(self, an, st):
        pass

    def call(self, an, st, inst, name, args):
        pass

    def after(self, an, st, inst, name, args, res):
        pass

    def store(self, an, st, inst, addr, val):
        pass

    def load(self, an, st, inst, addr, val):
        pass

    def branch(self, an, st, inst, cond, taken):
        pass

    def ret(self, an, st, inst, val):
        pass

    def edge(self, an, st, b, s, back):
        pass

    def backedge(self, an, st, b, s, raw):
        """about to start another iteration of the loop headed by block s; raw: next values of its phis"""
        pass

    def arrive(self, an, st, b, s, raw, inst):
        """a path of a fragment reached the cut point s"""
        pass

    def purge(self, an, t, tagset):
        return t

    def call_result(self, an, st, inst, name, args):
        """override to give a known value for a call (None: opaque)"""
        return None

    def is_pure(self, name):
        return False


class Analysis:
    MAXSTEPS = 60000

    def __init__(self, prog, fn, rule, assume=None):
        self.prog = prog
        self.fn = fn if isinstance(fn, Fn) else prog.fn(fn)
        self.rule = rule
        self.reports = {}
        self.steps = 0
        self.edges = 0
        self.joined = 0
        self.rets = []
        self.mods = prog.modsets()
        self.assume0 = assume
        self._loopmods = {}

    # ---- reports
    def report(self, st, inst, msg, instance=""):
        r = Report(self.rule.name, self.fn, inst, msg, self.trail(st, inst), instance)
        k = (msg, inst.id if inst else -1)
        if k not in self.reports:
            self.reports[k] = r

    def trail(self, st, inst):
        lines = []
        t = st.trail
        while t is not None:
            lines.append(t[0])
            t = t[1]
        lines.reverse()
        if inst is not None and inst.line:
            lines.append(str(inst.line))
        out = []
        for l in lines:
            if not out or out[-1] != l:
                out.append(l)
        return out[-40:]

    # ---- values
    def val(self, st, o):
        if isinstance(o, int):
            e = st.env.get(o)
            if e is None:
                e = ("ssa", o)
            return e
        k = o[0]
        if k == "i":
            return ("c", o[1])
        if k in ("null", "zero"):
            return C0
        if k == "f":
            return ("fn", o[1])
        if k == "g":
            return ("glob", o[1])
        if k == "s":
            return ("str", o[1])
        if k == "fp":
            return ("op", "fp", ("c", o[1]))
        if k == "ce":
            if o[1] == "getelementptr":
                vals = [self.val(st, x) for x in o[2:]]
                return ("op", "cegep") + tuple(vals)
            if o[1] in ("bitcast", "inttoptr", "ptrtoint"):
                return self.val(st, o[2])
            return ("op", "ce" + str(o[1])) + tuple(self.val(st, x) for x in o[2:] if isinstance(x, list))
        return ("undef",)

    # ---- facts
    def term(self, L):
        """L -> (T, sign, c) with L = sign*T + c, T constant free & sign-normal"""
        c, d = lin_parts(L)
        items = tuple(sorted(d.items(), key=lambda x: skey(x[0])))
        if items[0][1] < 0:
            return tuple((a, -k) for a, k in items), -1, c
        return items, 1, c

    NEG, POS = -(1 << 70), 1 << 70

    def interval(self, st, L):
        """known [lo,hi],neq of linear expression L"""
        if is_c(L):
            return L[1], L[1], frozenset()
        T, s, c = self.term(L)
        f = st.facts.get(T)
        if f is None:
            lo, hi, ne = self.NEG, self.POS, frozenset()
            # sum over single-atom facts
            if len(T) <= 3:
                lo = hi = 0
                for a, k in T:
                    g = st.facts.get(((a, 1),))
                    alo, ahi = (g[0], g[1]) if g else self.atom_range(a)
                    if k >= 0:
                        lo = lo + k * alo if alo > self.NEG and lo > self.NEG else self.NEG
                        hi = hi + k * ahi if ahi < self.POS and hi < self.POS else self.POS
                    else:
                        lo = lo + k * ahi if ahi < self.POS and lo > self.NEG else self.NEG
                        hi = hi + k * alo if alo > self.NEG and hi < self.POS else self.POS
        else:
            lo, hi, ne = f
        if s < 0:
            lo, hi = (-hi if hi < self.POS else self.NEG), (-lo if lo > self.NEG else self.POS)
            ne = frozenset(-x for x in ne)
        return (lo + c if lo > self.NEG else lo), (hi + c if hi < self.POS else hi), frozenset(x + c for x in ne)

    def atom_range(self, a):
        if is_bool(a):
            return 0, 1
        return self.NEG, self.POS

    def eval_cond(self, st, e):
        """-> True/False/None"""
        k = e[0]
        if k == "c":
            return bool(e[1])
        if k == "not":
            r = self.eval_cond(st, e[1])
            return None if r is None else not r
        if k == "cmp":
            for a in (x for x, _ in e[2][2]) if e[2][0] == "L" else (e[2],):
                if a[0] == "sel":
                    # the value chosen by a condition
                    c = self.eval_cond(st, a[1])
                    r = set()
                    for v in ((a[2],) if c is True else (a[3],) if c is False else (a[2], a[3])):
                        d = v if e[2] == a else add(e[2], scale(sub(v, a), dict(e[2][2])[a]))
                        r.add(self.eval_cond(st, mk_cmp("eq" if e[1] == "eq" else "slt", d, C0)))
                    return r.pop() if len(r) == 1 else None
            lo, hi, ne = self.interval(st, e[2])
            if e[1] == "eq":
                if lo == hi == 0:
                    return True
                if lo > 0 or hi < 0 or 0 in ne:
                    return False
                return None
            if hi < 0:
                return True
            if lo >= 0:
                return False
            # bound tightened by excluded constants
            if hi == 0 and 0 in ne:
                return True
            if lo == -1 and -1 in ne:
                return False
            return None
        if k == "op" and e[1] == "band":
            a, b = self.eval_cond(st, e[2]), self.eval_cond(st, e[3])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == "op" and e[1] == "bor":
            a, b = self.eval_cond(st, e[2]), self.eval_cond(st, e[3])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        f = st.facts.get(((e, 1),))
        if f is not None:
            if f[0] == f[1]:
                return f[0] != 0
            if 0 in f[2] or f[0] > 0 or f[1] < 0:
                return True
        return None

    def assume(self, st, e, truth):
        """record condition; False if contradictory"""
        r = self.eval_cond(st, e)
        if r is not None:
            return r == truth
        k = e[0]
        if k == "not":
            return self.assume(st, e[1], not truth)
        if k == "op" and e[1] == "band":
            if truth:
                return self.assume(st, e[2], True) and self.assume(st, e[3], True)
            a, b = self.eval_cond(st, e[2]), self.eval_cond(st, e[3])
            if a:
                return self.assume(st, e[3], False)
            if b:
                return self.assume(st, e[2], False)
            return True
        if k == "op" and e[1] == "bor":
            if not truth:
                return self.assume(st, e[2], False) and self.assume(st, e[3], False)
            a, b = self.eval_cond(st, e[2]), self.eval_cond(st, e[3])
            if a is False:
                return self.assume(st, e[3], True)
            if b is False:
                return self.assume(st, e[2], True)
            return True
        if k == "cmp":
            if e[1] == "eq":
                T, s, c = self.term(e[2])
                v = -c * s
                lo, hi, ne = st.facts.get(T, (None, None, None))
                if lo is None:
                    lo, hi, ne = self.NEG, self.POS, frozenset()
                if truth:
                    if not (lo <= v <= hi) or v in ne:
                        return False
                    st.facts[T] = (v, v, frozenset())
                    self._propagate_eq(st, T, v)
                else:
                    if lo == v:
                        lo += 1
                    elif hi == v:
                        hi -= 1
                    else:
                        ne = ne | {v}
                    if lo > hi:
                        return False
                    st.facts[T] = (lo, hi, ne)
                return True
            # lt: L<0 ; L = s*T + c
            L = e[2] if truth else add(scale(e[2], -1), const(-1))
            T, s, c = self.term(L)
            lo, hi, ne = st.facts.get(T, (self.NEG, self.POS, frozenset()))
            if s > 0:      # T < -c  -> T <= -c-1
                hi = min(hi, -c - 1)
            else:          # -T + c < 0 -> T > c
                lo = max(lo, c + 1)
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            if lo > hi:
                return False
            st.facts[T] = (lo, hi, ne)
            return True
        T = ((e, 1),)
        if e[0] in ("L",):
            return True
        if is_bool(e):
            st.facts[T] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
        elif truth:
            lo, hi, ne = st.facts.get(T, (self.NEG, self.POS, frozenset()))
            st.facts[T] = (lo, hi, ne | {0})
        else:
            st.facts[T] = (0, 0, frozenset())
        return True

    def assume_range(self, st, T, f):
        g = st.facts.get(T)
        if g is not None:
            f = (max(f[0], g[0]), min(f[1], g[1]), f[2] | g[2])
        st.facts[T] = f

    def _propagate_eq(self, st, T, v):
        pass

    # ---- memory
    def read(self, st, addr):
        v = st.mem.get(addr)
        if v is not None:
            return v
        cls = addr_class(addr)
        root = addr_root(addr)
        tag = st.ver.get((cls, root))
        if tag is None:
            tag = st.ver.get((cls, None), 0)
        g = self._const_load(addr)
        if g is not None:
            return g
        return ("ld", addr, tag)

    def _const_load(self, addr):
        if addr[0] == "glob":
            g = self.prog.globals.get(addr[1])
            if g and g["const"] and "init" in g:
                i = g["init"]
                if i and i[0] in ("i", "null", "f", "g", "s"):
                    return self.val(None, i)
        return None

    def _clobber_class(self, st, cls, root, tag, addr=None):
        for a in [a for a in st.mem if addr_class(a) == cls]:
            if addr is not None and (a == addr or disjoint(a, addr)):
                continue
            if addr is None and root is not None:
                pass
            del st.mem[a]
        if root is None:
            for k in [k for k in st.ver if k[0] == cls]:
                st.ver[k] = tag
            st.ver[(cls, None)] = tag
        else:
            st.ver[(cls, root)] = tag
            st.ver[(cls, None)] = tag if (cls, None) in st.ver else st.ver.get((cls, None), 0)
            # unknown-root loads may alias
            st.ver[(cls, "?")] = tag

    def write(self, st, addr, val, tag):
        cls = addr_class(addr)
        self._clobber_class(st, cls, addr_root(addr), tag, addr)
        st.mem[addr] = val

    def clobber_classes(self, st, classes, tag):
        everything = "<mem>" in classes
        for a in list(st.mem):
            c = addr_class(a)
            if c in classes or (everything and not c.startswith("al:")):
                del st.mem[a]
            elif c.startswith("al:") and "*" in classes and self.escaped(a):
                del st.mem[a]
        for c in classes:
            for k in [k for k in st.ver if k[0] == c]:
                st.ver[k] = tag
            st.ver[(c, None)] = tag
        if "*" in classes:
            for c in self.esc_classes():
                for k in [k for k in st.ver if k[0] == c]:
                    st.ver[k] = tag
                st.ver[(c, None)] = tag

    def esc_classes(self):
        e = getattr(self, "_esc", None)
        if e is None:
            e = set()
            al = {i.id for i in self.fn.insts() if i.op == "alloca"}
            # address passed to a call or stored (through gep/fld)
            der = {i: i for i in al}
            ch = True
            while ch:
                ch = False
                for i in self.fn.insts():
                    if i.id in der:
                        continue
                    if i.op in ("getelementptr", "bitcast", "ptrtoint") or (i.callee_name() or "").startswith("fld:"):
                        if isinstance(i.a[0], int) and i.a[0] in der:
                            der[i.id] = der[i.a[0]]
                            ch = True
            for i in self.fn.insts():
                if i.op in ("call", "invoke") and not (i.callee_name() or "").startswith(("fld:", "llvm.lifetime")):
                    for o in i.a:
                        if isinstance(o, int) and o in der:
                            e.add("al:%d" % der[o])
                elif i.op == "store" and isinstance(i.a[0], int) and i.a[0] in der:
                    e.add("al:%d" % der[i.a[0]])
            self._esc = e
        return e

    def escaped(self, addr):
        return addr_class(addr) in self.esc_classes()

    def purge(self, st, tagset):
        if not tagset:
            return
        for T in [T for T in st.facts if any(tags(a) & tagset for a, _ in T)]:
            del st.facts[T]
        for a in [a for a, v in st.mem.items() if (tags(a) | tags(v)) & tagset]:
            v = st.mem.pop(a)
            cls = addr_class(a)
            t = next(iter(tagset))
            st.ver[(cls, addr_root(a))] = t
            st.ver[(cls, None)] = t
        for i, v in list(st.env.items()):
            if tags(v) & tagset:
                st.env[i] = ("old", i)
        for i, v in list(st.linit.items()):
            if tags(v) & tagset:
                del st.linit[i]
        st.t = self.rule.purge(self, st.t, tagset)

    # ---- run
    def start_env(self, st, b):
        """values live at block b, named by their SSA ids; address arithmetic is unfolded"""
        fn = self.fn
        al = {i.id for i in fn.insts() if i.op == "alloca"}
        preset = getattr(self, "preset", {})

        def ex(i, depth=0):
            if i in st.env:
                return st.env[i]
            if i in al:
                v = ("al", i)
            elif i in preset:
                v = preset[i]
            else:
                v = ("in", i)
                d = fn.defs.get(i)
                if d is not None and depth < 12:
                    n = d.callee_name()
                    ops = [o for o in d.a if isinstance(o, int)] if d.op != "phi" else []
                    if n is not None and n.startswith("fld:"):
                        for o in ops:
                            ex(o, depth + 1)
                        v = ("fld", n[4:], self.val(st, d.a[0]))
                    elif d.op in ("add", "sub", "mul", "shl", "zext", "sext", "bitcast", "trunc", "getelementptr", "freeze", "and", "or", "xor", "urem", "srem", "udiv", "sdiv", "icmp"):
                        for o in ops:
                            ex(o, depth + 1)
                        v = self._pure(st, d)
            st.env[i] = v
            return v
        for i in sorted(fn.live[b]):
            ex(i)

    def run(self, start=None, cut=None):
        """start: begin at this block with everything live there symbolic; cut: blocks where a path ends with rule.arrive()"""
        fn = self.fn
        self.cut = cut or ()
        st = St()
        st.env = {}
        st.mem = {}
        st.ver = {}
        st.facts = {}
        st.seen = frozenset()
        st.trail = None
        st.prev = None
        st.linit = {}
        for a in fn.args:
            st.env[a[0]] = ("arg", a[0], a[1] or (fn.names.get(a[0]) or [""])[0])
        if start:
            self.start_env(st, start)
        st.t = self.rule.start(self)
        self.rule.entry(self, st)
        if self.assume0:
            self.assume0(self, st)
        self.visited = defaultdict(set)
        self.joins = {}
        q = []
        n = 0
        self._push(q, start or 0, st)
        while q:
            _, _, b, st = heapq.heappop(q)
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                from .facts import AnalysisError
                raise AnalysisError("analysis of %s did not converge" % fn.name)
            self._block(q, b, st)
        return self

    _cnt = 0

    def _push(self, q, b, st):
        live = self.fn.live[b]
        if b != 0:
            st.env = {k: v for k, v in st.env.items() if k in live}
        key = (frozenset(st.env.items()), frozenset(st.mem.items()), frozenset(st.facts.items()), st.t)
        vis = self.visited[b]
        if key in vis:
            return
        if len(vis) >= self.rule.cap:
            # join with the merged state of the same typestate
            self.joined += 1
            jk = (b, st.t)
            old = self.joins.get(jk)
            if old is None:
                self.joins[jk] = st.copy()
            else:
                j, changed = self._join(b, old, st)
                if not changed:
                    return
                self.joins[jk] = j
                st = j.copy()
            key = ("J", frozenset(st.env.items()), frozenset(st.mem.items()), frozenset(st.facts.items()), st.t)
            if key in vis:
                return
        vis.add(key)
        Analysis._cnt += 1
        heapq.heappush(q, (self.fn.rpo.get(b, 1 << 30), Analysis._cnt, b, st))

    def _join(self, b, A, B):
        J = A.copy()
        changed = False
        for T in list(J.facts):
            g = B.facts.get(T)
            f = J.facts[T]
            if g is None:
                del J.facts[T]
                changed = True
            elif g != f:
                n = (min(f[0], g[0]), max(f[1], g[1]), f[2] & g[2])
                if n != f:
                    changed = True
                    if n[0] <= self.NEG and n[1] >= self.POS and not n[2]:
                        del J.facts[T]
                    else:
                        J.facts[T] = n
                        w = getattr(J, "trail", None)
                        self._widen = getattr(self, "_widen", defaultdict(int))
                        self._widen[(b, T)] += 1
                        if self._widen[(b, T)] > 6:
                            del J.facts[T]
        purge = set()
        for i in list(J.env):
            v = B.env.get(i)
            if v != J.env[i]:
                nv = ("join", (b, i))
                if J.env[i] != nv:
                    J.env[i] = nv
                    changed = True
        for a in list(J.mem):
            if B.mem.get(a) != J.mem[a]:
                del J.mem[a]
                cls = addr_class(a)
                t = -(1000 + b)
                J.ver[(cls, addr_root(a))] = t
                J.ver[(cls, None)] = t
                changed = True
        for a in B.mem:
            if a not in J.mem:
                cls = addr_class(a)
                t = -(1000 + b)
                if J.ver.get((cls, addr_root(a))) != t:
                    J.ver[(cls, addr_root(a))] = t
                    J.ver[(cls, None)] = t
                    changed = True
        for k in set(J.ver) | set(B.ver):
            if J.ver.get(k) != B.ver.get(k):
                t = -(1000 + b)
                if J.ver.get(k) != t:
                    J.ver[k] = t
                    changed = True
        J.seen = A.seen | B.seen
        for i in list(J.linit):
            if B.linit.get(i) != J.linit[i]:
                del J.linit[i]
        return J, changed

    def _loopmod(self, h):
        m = self._loopmods.get(h)
        if m is None:
            m = set()
            for b in self.fn.loops.get(h, ()):  # classes written in the loop body
                for i in self.fn.blocks[b]:
                    if i.op == "store":
                        m.add(self._static_class(i.a[1]))
                    elif i.op in ("atomicrmw", "cmpxchg"):
                        m.add(self._static_class(i.a[0]))
                    elif i.op in ("call", "invoke"):
                        n = i.callee_name()
                        if n and n.startswith(("fld:", "llvm.")) and "mem" not in n:
                            continue
                        if n and n in self.mods:
                            m |= self.mods[n]
                        elif n in SYNC:
                            m.add("<sync>")
                        elif n and n not in PURE:
                            m.add("*")
                            for o in i.a:
                                if isinstance(o, int):
                                    m.add(self._static_class(o))
                        elif n is None:
                            m.add("<mem>")
                            m.add("*")
            self._loopmods[h] = m
        return m

    def _static_class(self, o, depth=0):
        if isinstance(o, list):
            return "g:" + o[1] if o[0] == "g" else "*"
        d = self.fn.defs.get(o)
        if d is None or depth > 10:
            return "*"
        n = d.callee_name()
        if n and n.startswith("fld:"):
            return n[4:]
        if d.op == "alloca":
            return "al:%d" % d.id
        if d.op in ("getelementptr", "bitcast", "freeze"):
            return self._static_class(d.a[0], depth + 1)
        return "*"

    def _goto(self, q, st, b, s, inst):
        fn = self.fn
        back = (b, s) in fn.back
        self.edges += 1
        vals = {}
        raw = {}
        aff = fn.affine.get(s, {})
        IT = ("phi", ("it", s))
        for i in fn.blocks[s]:
            if i.op != "phi":
                break
            for p in i.a:
                if p[1] == b:
                    v = self.val(st, p[2])
                    raw[i.id] = v
                    if not back and i.id in aff:
                        st.linit[i.id] = v
                    if back and i.id in aff and i.id in st.linit:
                        v = add(st.linit[i.id], scale(IT, aff[i.id]))
                    elif back:
                        lit = isinstance(p[2], list)
                        if not lit and isinstance(p[2], int):
                            d = fn.defs.get(p[2])
                            lit = is_c(v) and d is not None and d.op == "phi"
                            if v == ("arg",) or v[0] in ("arg", "al", "glob"):
                                lit = True
                            if p[2] == i.id:
                                lit = True
                        if not lit:
                            v = ("phi", i.id)
                    vals[i.id] = v
                    break
        if s in self.cut:
            if inst is not None and inst.line:
                st.trail = (str(inst.line), st.trail)
            self.rule.arrive(self, st, b, s, raw, inst)
            return
        if back:
            self.rule.backedge(self, st, b, s, raw)
            tg = {("p", i) for i, v in vals.items() if v == ("phi", i)}
            tg.add(("p", ("it", s)))
            self.purge(st, tg)
            for i in list(aff):
                if i not in st.linit and i in vals:
                    vals[i] = ("phi", i)
            # SSA phis holding values of purged tags
            m = self._loopmod(s)
            if m:
                tag = -(s + 1)
                self.purge(st, {tag})
                mm = set(m)
                if "<sync>" in mm:
                    mm.discard("<sync>")
                self.clobber_classes(st, mm, tag)
        for i, v in vals.items():
            st.env[i] = v
        if back:
            st.facts[((IT, 1),)] = (1, self.POS, frozenset())
        if inst is not None and inst.line:
            tl = str(inst.line)
            if st.trail is None or st.trail[0] != tl:
                st.trail = (tl, st.trail)
        self.rule.edge(self, st, b, s, back)
        st.prev = b
        self._push(q, s, st)

    def _block(self, q, b, st):
        fn = self.fn
        rule = self.rule
        val = self.val
        for i in fn.blocks[b]:
            op = i.op
            if op == "phi":
                continue
            if op in ("call", "invoke"):
                n = i.callee_name()
                if n is not None and n.startswith("fld:"):
                    st.env[i.id] = ("fld", n[4:], val(st, i.a[0]))
                    continue
                if n is not None and n.startswith("llvm."):
                    if "mem" not in n.split(".")[1]:
                        if n.startswith("llvm.expect"):
                            st.env[i.id] = val(st, i.a[0])
                        elif ".with.overflow." in n:
                            # the pair (exact result, whether it does not fit)
                            st.env[i.id] = ("ovf", n.split(".")[1], val(st, i.a[0]), val(st, i.a[1]))
                        if op == "invoke":
                            self._goto(q, st, b, i.succ[0], i)
                            return
                        continue
                    n = n.split(".")[1]
                args = [val(st, o) for o in i.a]
                cal = n if n is not None else val(st, i.callee)
                if n is None and cal[0] == "fn":
                    n = cal = cal[1]
                rule.call(self, st, i, cal, args)
                if i.id in st.seen:
                    self.purge(st, {i.id})
                else:
                    st.seen = st.seen | {i.id}
                res = rule.call_result(self, st, i, cal, args)
                if res is None:
                    res = ("call", cal, i.id, tuple(args))
                st.env[i.id] = res
                self._effects(st, i, n, args)
                rule.after(self, st, i, cal, args, res)
                if n in NORETURN:
                    return
                if op == "invoke":
                    s2 = st.copy()
                    self._goto(q, s2, b, i.succ[0], i)
                    return
                continue
            if op == "load":
                a = val(st, i.a[0])
                v = self.read(st, a)
                st.env[i.id] = v
                rule.load(self, st, i, a, v)
                continue
            if op == "store":
                v = val(st, i.a[0])
                a = val(st, i.a[1])
                rule.store(self, st, i, a, v)
                if i.id in st.seen:
                    tv = tags(v) | tags(a)
                    if i.id in tv:
                        v = ("op", "stale", ("c", i.id))
                    self.purge(st, {i.id})
                else:
                    st.seen = st.seen | {i.id}
                self.write(st, a, v, i.id)
                continue
            if op == "alloca":
                nm = fn.names.get(i.id)
                st.env[i.id] = ("al", i.id)
                continue
            if op == "br":
                if not i.a:
                    self._goto(q, st, b, i.succ[0], i)
                    return
                c = as_bool(val(st, i.a[0]))
                if i.succ[0] == i.succ[1]:
                    self._goto(q, st, b, i.succ[0], i)
                    return
                for truth, s in ((True, i.succ[0]), (False, i.succ[1])):
                    s2 = st.copy()
                    if self.assume(s2, c, truth):
                        rule.branch(self, s2, i, c, truth)
                        self._goto(q, s2, b, s, i)
                return
            if op == "switch":
                x = val(st, i.a[0])
                dflt = st.copy()
                ok = True
                for cv, s in i.cases:
                    c = mk_cmp("eq", x, const(cv))
                    s2 = st.copy()
                    if self.assume(s2, c, True):
                        rule.branch(self, s2, i, c, True)
                        self._goto(q, s2, b, s, i)
                    if ok:
                        ok = self.assume(dflt, c, False)
                if ok:
                    rule.branch(self, dflt, i, ("undef",), False)
                    self._goto(q, dflt, b, i.dflt, i)
                return
            if op == "ret":
                v = val(st, i.a[0]) if i.a else None
                rule.ret(self, st, i, v)
                return
            if op == "unreachable":
                return
            st.env[i.id] = self._pure(st, i)
            if op in ARITH and self.rule.arith is not None:
                self.rule.arith(self, st, i)
        # fallthrough without terminator cannot happen

    def _effects(self, st, i, n, args):
        if n is None:
            if self.rule.pure_callbacks:
                return
            self.clobber_classes(st, {"<mem>", "*"}, i.id)
            # every class known so far may have changed
            for k in list(st.ver):
                if not k[0].startswith("al:"):
                    st.ver[k] = i.id
            self._default_bump(st, i.id)
            return
        if self.rule.is_pure(n) or n in PURE:
            return
        m = self.mods.get(n)
        if m is not None:
            if m:
                mm = m
                self.clobber_classes(st, mm, i.id)
                if "<mem>" in m:
                    pass
            # out-parameters
            for a in args:
                self._clobber_arg(st, a, i.id)
            return
        if n in SYNC:
            # another thread may have changed shared fields
            if n != "pthread_mutex_unlock":
                self.clobber_classes(st, {"<mem>"}, i.id)
                for k in list(st.ver):
                    if not k[0].startswith("al:"):
                        st.ver[k] = i.id
                self._default_bump(st, i.id)
            return
        # unknown external: what its pointer arguments reach
        if n in ("memcpy", "memmove", "memset") and len(args) >= 3 and is_c(args[2]) and self._aggregate(st, n, args, i.id):
            return
        for a in args:
            self._clobber_arg(st, a, i.id)

    def _aggregate(self, st, n, args, tag):
        """whole-struct copy or zeroing: field by field"""
        cls = []
        for sn in sorted({c.split(".", 1)[0] for c in self._field_classes() if c != "*"}):
            sd = self.prog.structs.get(sn) or {}
            if sd.get("size") == args[2][1]:
                cls += [sn + "." + mb[0] for mb in sd.get("members", []) if mb[0]]
        if n == "memset" and args[1] != C0 or not cls:
            return False
        vals = [(c, C0 if n == "memset" else self.read(st, ("fld", c, args[1]))) for c in cls]
        if n != "memset" and args[1][0] == "al":
            # only what is known about the local
            vals = [(c, v) for c, v in vals if True]
        self._clobber_arg(st, args[0], tag)
        for c, v in vals:
            self.write(st, ("fld", c, args[0]), v, tag)
        return True

    def _default_bump(self, st, tag):
        st.ver[("<any>", None)] = tag
        for c in self._field_classes():
            st.ver[(c, None)] = tag
            for k in [k for k in st.ver if k[0] == c]:
                st.ver[k] = tag

    def _field_classes(self):
        f = getattr(self, "_fc", None)
        if f is None:
            f = set()
            for i in self.fn.insts():
                n = i.callee_name()
                if n and n.startswith("fld:"):
                    f.add(n[4:])
            f.add("*")
            self._fc = f
        return f

    def _clobber_arg(self, st, a, tag):
        k = a[0]
        if k in ("al", "fld") or k == "L":
            cls = addr_class(a)
            if cls == "*":
                return
            for x in [x for x in st.mem if x == a or (addr_class(x) == cls and not disjoint(x, a)) or _under(x, a)]:
                del st.mem[x]
            st.ver[(cls, addr_root(a))] = tag
            if k == "al":
                # fields of a local struct
                for kk in list(st.ver):
                    if kk[1] == a:
                        st.ver[kk] = tag
                for c in self._field_classes():
                    st.ver[(c, a)] = tag
        elif k == "arg":
            pass

    def _pure(self, st, i):
        op = i.op
        v = [self.val(st, o) for o in i.a]
        if op == "add":
            return add(v[0], v[1])
        if op == "sub":
            return sub(v[0], v[1])
        if op == "mul":
            return mul(v[0], v[1])
        if op in ("lshr", "ashr") and is_c(v[1]):
            q = mk_div(v[0], const(1 << v[1][1]))
            if q is not None:
                return q
        if op == "shl" and is_c(v[1]):
            return scale(v[0], 1 << v[1][1])
        if op == "icmp":
            return mk_cmp(i.pred, v[0], v[1])
        if op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            return v[0]
        if op == "trunc":
            if is_c(v[0]):
                return v[0]
            bits = int(i.ty[1:])
            if bits == 1:
                return v[0] if is_bool(v[0]) else ("op", "trunc1", v[0]) if False else v[0]
            if bits >= 32:
                return v[0]
            if is_bool(v[0]):
                return v[0]
            return ("op", "trunc%d" % bits, v[0])
        if op == "getelementptr":
            base = v[0]
            ty = i.gty
            cur = base
            first = True
            t = ty
            for idx in v[1:]:
                if first:
                    sz = self.prog.sizeof(t)
                    first = False
                else:
                    if t.startswith("["):
                        t = t[1:-1].split(" x ", 1)[1]
                        sz = self.prog.sizeof(t)
                    else:
                        return ("op", "gep", base) + tuple(v[1:])
                if sz is None:
                    return ("op", "gep:" + ty, base) + tuple(v[1:])
                cur = add(cur, scale(idx, sz))
            return cur
        if op in ("and", "or", "xor"):
            if i.ty == "i1":
                a, b = as_bool(v[0]), as_bool(v[1])
                if op == "xor":
                    if is_c(b):
                        return mk_not(a) if b[1] else a
                    if is_c(a):
                        return mk_not(b) if a[1] else b
                    return ("op", "bxor", a, b)
                if op == "and":
                    if is_c(a):
                        return b if a[1] else C0
                    if is_c(b):
                        return a if b[1] else C0
                    return ("op", "band", a, b)
                if is_c(a):
                    return C1 if a[1] else b
                if is_c(b):
                    return C1 if b[1] else a
                return ("op", "bor", a, b)
            if is_c(v[0]) and is_c(v[1]):
                x, y = v[0][1], v[1][1]
                return ("c", {"and": x & y, "or": x | y, "xor": x ^ y}[op])
            x, y = sorted(v, key=skey)
            if op == "and" and y == C1 and is_bool(x):
                return x
            if op == "and" and x == C1 and is_bool(y):
                return y
            return ("op", op, x, y)
        if op == "select":
            c = as_bool(v[0])
            r = self.eval_cond(st, c)
            if r is not None:
                return v[1] if r else v[2]
            return ("sel", c, v[1], v[2])
        if op in ("urem", "srem", "udiv", "sdiv"):
            if is_c(v[0]) and is_c(v[1]) and v[1][1]:
                x, y = v[0][1], v[1][1]
                return ("c", x % y if op.endswith("rem") else x // y)
            if is_c(v[1]) and v[1][1] == 1:
                return C0 if op.endswith("rem") else v[0]
            if op.endswith("div"):
                q = mk_div(v[0], v[1])
                if q is not None:
                    return q
            return ("op", op[1:], v[0], v[1])
        if op == "fcmp":
            return ("op", "fcmp", ("str", i.pred), v[0], v[1])
        if op == "fneg":
            return ("op", "fneg", v[0])
        if op in ("atomicrmw", "cmpxchg"):
            self.rule.store(self, st, i, v[0], ("op", op, v[1]))
            self.write(st, v[0], ("ssa", i.id), i.id)
            return ("ssa", i.id)
        if op == "extractvalue" and v[0][0] == "ovf" and i.ix in ([0], [1]):
            _, k, a, b = v[0]
            if i.ix == [1]:
                return ("op", "ovf:" + k, a, b)
            return {"add": add, "sub": sub, "mul": mul}[k[1:]](a, b)
        if op in ("extractvalue", "insertvalue", "landingpad"):
            return ("op", op + str(i.id))
        return ("op", op) + tuple(v)


def _under(x, a):
    """address x lies inside the object at a"""
    d = 0
    while d < 8:
        if x == a:
            return True
        if x[0] == "fld":
            x = x[2]
        elif x[0] == "L":
            nx = None
            for t, k in x[2]:
                if k == 1 and t[0] in ("fld", "al", "arg", "ld", "glob"):
                    nx = t
                    break
            if nx is None:
                return False
            x = nx
        else:
            return False
        d += 1
    return False
