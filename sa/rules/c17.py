import re
from .frag import *

TECHNIQUE = "cut-point fragments of every map operation with inferred loop invariants, matched against open-addressing rules (probe order, match condition, entry contents, growth)"
LEVEL_NOTE = "every path of every map operation, with symbolic keys, hashes, limits and entries; hash and compare functions uninterpreted except for what the rule says of them"
EXPLANATION = (
    "Every map operation is inlined and split at its loop headers into acyclic fragments with symbolic state; facts carried around loops are inferred and re-checked. "
    "Obligations: the four hash functions copy exactly the (folded) key bytes to the private key buffer and hash exactly those bytes, trimming hash and length together; "
    "the key buffer has room before a key is copied; probing starts at the hash, advances by one slot modulo the limit, passes only occupied entries that differ, and stops "
    "only at an empty entry or at one equal in length and bytes (every part, for composite keys); the result of each operation is that entry's; a new entry records hash, key position, key length "
    "and value position consistently; growth happens before the table is full, and rehashing puts every entry once into an empty slot of the larger table by its stored hash.")
ASSUMPTIONS = ["array operations behave as C18 states", "memcmp/tolower behave as the C library says", "map limits are powers of two once constructed (checked: constructors and growth)",
               "keys shorter than the 64-bit address space"]

KL = re.compile(r"(_keyloc|_pair)\.(idx|len)$")   # struct types of one layout share a name in linked IR


def klname(m):
    for x in m.all:
        for e in x.ev:
            if e[0] == "store" and e[1][0] == "fld" and KL.match(e[1][1]):
                return e[1][1].split(".")[0] + "."
    return "_keyloc."


PFX = ("hashmap.", "vec.", "stringview.")
ENT = "hm_entry."
SIMPLE = ("set_nadd", "set_nhas", "hashmap_nset", "hashmap_nget", "multimap_nset")
COMP = ("compositemap_set", "compositemap_get")
M1 = const(-1)


def fl(s, f, b):
    return ("fld", s + "." + f, b)


def ld(a):
    return ("ld", a, 0)


class MapRule(FragRule):
    def call(self, an, st, inst, name, args):
        if not isinstance(name, str) and len(args) == 3:
            self._ev(st, ("pre", inst.id, an.read(st, args[2])))


class Map:
    def __init__(self, ctx, prog, f, comp):
        fn = prog.fn(f)
        self.f, self.comp = f, comp
        self.S = ("arg", fn.args[0][0], fn.args[0][1] or (fn.names.get(fn.args[0][0]) or [""])[0])
        self.args = [("arg", a[0], a[1] or (fn.names.get(a[0]) or [""])[0]) for a in fn.args]
        h = lambda n: ld(fl("hashmap", n, self.S))
        self.head, self.limit, self.ents, self.kbuf, self.klen = h("_keybuf_head"), h("_limit"), h("_entries"), h("_keybuf"), h("_keybuf_len")
        self.values, self.keys, self.ktmp = h("values"), h("_keys"), h("_key_temp")
        v = lambda b, n: ld(fl("vec", n, b))
        self.v = v

        def assume(an, st):
            an.assume(st, le(C1, self.limit), True)
            an.assume(st, le(C0, v(self.values, "size")), True)
            an.assume(st, le(C0, self.klen), True)
            if comp:
                an.assume(st, eq(v(self.keys, "_elem_size"), const(16)), True)
                an.assume(st, eq(v(self.args[1], "_elem_size"), const(16)), True)
                an.assume(st, le(C0, v(self.keys, "size")), True)
        self.F = Fragments(ctx, prog, f, lambda: MapRule(None, {"all"}, 80), assume)
        self.live = self.F.reachable()
        self.arr, self.ret = [], []
        for s in self.live:
            for o in self.F.frag[s].arr:
                x = View(o, PFX)
                x.raw_o = o
                if not x.infeasible:
                    self.arr.append(x)
            for o in self.F.frag[s].outs:
                x = View(o, PFX)
                x.raw_o = o
                x.src, x.dst = s, None
                if not x.infeasible and not x.died:
                    self.ret.append(x)
        self.all = self.arr + self.ret

    def tr(self, x, e):
        return x.settle(self.F.tr(x.raw_o, e))

    def back(self, s, e, stop, seen=None):
        """values of e (over fragment s) seen when coming from fragments in stop"""
        seen = set() if seen is None else seen
        if (s, e) in seen:
            return []
        if len(seen) > 24:
            return [(self.all[0], ("undef",))]      # a value that changes round a loop has no fixed origin
        seen.add((s, e))
        r = []
        for o in self.arr:
            if o.dst == s:
                v = self.tr(o, e)
                if o.src in stop:
                    r.append((o, v))
                else:
                    r += self.back(o.src, v, stop, seen)
        return r

    def bases(self, x):
        b = set()
        for T in x.st.facts:
            for a, _ in T:
                for y in walk(a):
                    if y[0] == "ld" and y[1][0] == "fld" and y[1][1] == ENT + "val_idx":
                        b.add(y[1][2])
        return b


def lastw(x, a):
    """what the path last stored at exactly this address, else what was there (arrays and entries are distinct objects)"""
    for e in reversed(x.ev):
        if e[0] == "store" and e[1] == a:
            return e[2]
        if e[0] == "call" and e[1] == "memcpy" and a[0] == "fld" and e[2][0] == a[2] and a[2][0] == "al" and len(e[2]) > 3:
            return lastw(x, ("fld", a[1], e[2][1]))
    return ("ld", a, 0)


def ent(e, f):
    return ld(("fld", ENT + f, e))


def probes(m):
    """headers that test an entry for being empty both ways -> entry address"""
    r = {}
    for s in m.live:
        os_ = [x for x in m.all if x.src == s]
        cand = set().union(*[m.bases(x) for x in os_]) if os_ else set()
        for b in cand:
            t = [x.truth(eq(ent(b, "val_idx"), M1)) for x in os_]
            if True in t and False in t:
                r.setdefault(s, []).append(b)
    return r


def slot_index(m, e):
    """e == entries + 32*X -> X"""
    d = sub(e, m)
    c, p = lin_parts(d)
    if c % 32 or any(k % 32 for k in p.values()):
        return None
    return mk_lin(c // 32, {a: k // 32 for a, k in p.items()})


def masked(i, limit):
    """i reduced modulo limit -> what is reduced"""
    i = strip(i)
    if i[0] == "op" and i[1] == "and":
        lm = sub(limit, C1)
        if i[2] == lm:
            return i[3]
        if i[3] == lm:
            return i[2]
    if i[0] == "op" and i[1] in ("rem", "urem") and i[3] == limit:
        return i[2]
    return None


def hash_calls(m):
    return [(x, e) for x in m.all for e in x.ev if e[0] == "call" and e[1] == "<indirect>"]


def run(ctx):
    p = ctx.prog("util", keep=[])
    hashers(ctx, p)
    maps = {}
    for f in SIMPLE + COMP:
        maps[f] = Map(ctx, p, f, f in COMP)
    for f, m in maps.items():
        ctx.rule("C17.keybuf", "a key is copied to the private key buffer only when it fits; the buffer's recorded length is its allocation")
        keybuf(ctx, m)
        ctx.rule("C17.probe", "probing visits slot after slot from the hash, passes only entries that differ, and stops only at an empty or an equal entry")
        probe(ctx, m)
        if f in ("set_nadd", "hashmap_nset", "multimap_nset", "compositemap_set"):
            ctx.rule("C17.grow", "the table grows before it is full and every entry is re-inserted once by its hash")
            grow(ctx, m)
    ctx.rule("C17.life", "constructors and clear leave an empty table")
    life(ctx, p)


# ------------------------------------------------------------------ hash functions
def hashers(ctx, p):
    ctx.rule("C17.hash", "the hash functions store and hash exactly the configured form of the key's bytes and trim length and hash together")
    F = Fragments(ctx, p, "set_construct", lambda: FragRule(None, {"all"}))
    fn = p.fn("set_construct")
    props = ("arg", fn.args[2][0], fn.args[2][1] or (fn.names.get(fn.args[2][0]) or [""])[0])
    chosen = {}
    for o in F.returns():
        x = View(o, PFX)
        hf = [e[2] for e in x.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1] == "hashmap.get_hash__"]
        for pr in range(4):
            if o.truth(eq(props, const(pr))) is not False:
                chosen.setdefault(pr, set()).add(hf[-1] if hf else None)
    ctx.need(len(chosen), 4, "property values")
    for pr in range(4):
        hs = chosen[pr]
        ok = len(hs) == 1 and next(iter(hs)) and next(iter(hs))[0] == "fn"
        ctx.ob("properties %d select one hash function" % pr, ok, "util/hashmap.c", "several or none: %s" % [show(h) if h else None for h in hs])
        if ok:
            hasher(ctx, p, next(iter(hs))[1], pr)


def hasher(ctx, p, f, pr):
    nocase, rtrim = pr & 1, pr & 2
    what = "%s (%s%s)" % (f, "nocase " if nocase else "", "rtrim" if rtrim else "")
    F = Fragments(ctx, p, f, lambda: FragRule(None, {"all"}))
    fn = F.fn
    S, K, N = [("arg", fn.args[i][0], fn.args[i][1] or (fn.names.get(fn.args[i][0]) or [""])[0]) for i in range(3)]
    buf = add(ld(fl("hashmap", "_keybuf", S)), ld(fl("hashmap", "_keybuf_head", S)))

    def bad(o, msg):
        ctx.ob(what, False, o.where(), msg, o.trail())

    seen = 0
    if len(F.headers) != 1:
        raise AnalysisError("C17: %s has %d loops, expected 1" % (f, len(F.headers)))
    h = F.headers[0]
    init = [o for o in F.arrivals(src=0)]
    loop = [o for o in F.arrivals(src=h)]
    rets = F.returns(h)
    ctx.need(len(init), 1, "entry of " + f)
    ctx.need(len(loop), 1, "iterations of " + f)
    ctx.need(len(rets), 1, "returns of " + f)
    n0 = ("ld", N, 0)

    def mem(o):
        return [e for e in o.ev if e[0] == "store"]
    # one iteration
    for o in loop:
        st = [e for e in mem(o)]
        if len(st) != 1:
            return bad(o, "%d stores in one iteration" % len(st))
        dst, val = st[0][1], strip(st[0][2])
        v = val
        if nocase:
            if not (v[0] == "call" and v[1] == "tolower"):
                return bad(o, "byte stored unfolded: %s" % show(v))
            v = strip(ev_calls(o, "tolower")[-1][2][0])
        elif v[0] == "call":
            return bad(o, "byte stored is %s, not the key's" % show(v))
        while v[0] == "op" and v[1] in ("sext", "zext") and len(v) >= 3:
            v = strip(v[2])
        if v[0] == "op" and v[1] == "and" and const(255) in v[2:]:
            v = v[2] if v[3] == const(255) else v[3]
        if v[0] != "ld":
            return bad(o, "byte stored is %s" % show(v))
        pos = sub(v[1], K)
        # position: starts at 0, advances by one, copies to the same offset
        if F.tr(o, pos) != add(pos, C1):
            return bad(o, "key position %s does not advance by one" % show(pos))
        for i in init:
            if F.tr(i, pos) != C0:
                return bad(i, "first byte is at %s" % show(F.tr(i, pos)))
            if sub(F.tr(i, dst), buf) != C0:
                return bad(i, "first byte stored at %s" % show(F.tr(i, dst)))
        if F.tr(o, dst) != add(dst, C1):
            return bad(o, "store position does not advance with the key position")
        if P(o).lt(pos, n0) is not True:
            return bad(o, "byte taken without knowing its position is inside the key")
    sb = {id(o): [e for e in mem(o)][-1][2] for o in loop}
    for o in rets:
        r = o.val
        ns = [e[2] for e in mem(o) if e[1] == N]
        other = [e for e in mem(o) if e[1] != N]
        if other:
            return bad(o, "stores to %s at the end" % show(other[0][1]))
        if not P(o).le(n0, pos):
            return bad(o, "stops before the end of the key")
        n = ns[-1] if ns else n0
        if not rtrim and n != n0:
            return bad(o, "changes the key length")
        if rtrim and (not ns or not mentions(n, lambda y: y[0] == "in")):
            return bad(o, "length is not trimmed: %s" % show(n))
    if len({o.val for o in rets}) != 1:
        return bad(rets[0], "several results")
    R = rets[0].val
    NT = [e[2] for e in mem(rets[0]) if e[1] == N][-1] if rtrim else None
    # the running hash: a symbol (or the trimmed copy's source)
    upd = {}
    for o in loop:
        upd[id(o)] = F.tr(o, R)
    inits = {F.tr(i, R) for i in init}
    if len(inits) != 1 or not is_c(next(iter(inits))):
        return bad(rets[0], "hash does not start from a constant")
    if not rtrim:
        if len(set(upd.values())) != 1:
            return bad(loop[0], "hash step differs between iterations")
        step = next(iter(upd.values()))
        ok = hash_step(step, R, sb[id(loop[0])])
        if ok is not True:
            return bad(loop[0], ok)
    else:
        ts = set()
        for o in loop:
            b = sb[id(o)]
            blank = o.truth(eq(b, const(32)))
            if blank is None:
                blank = o.truth(eq(strip(b), const(32)))
            nr, nn = upd[id(o)], F.tr(o, NT)
            if blank is True:
                if nr != R or nn != NT:
                    return bad(o, "a blank changes the trimmed key to hash %s length %s" % (show(nr), show(nn)))
            elif blank is False:
                if nn != add(pos, C1):
                    return bad(o, "after a non-blank the trimmed length is %s" % show(nn))
                ts.add(nr)
            else:
                return bad(o, "iteration does not decide whether the byte is a blank")
        if len(ts) != 1:
            return bad(loop[0], "hash step differs between iterations")
        step = next(iter(ts))
        # running hash H: symbol inside step; trimmed value must equal it after every non-blank
        syms = {y for y in walk(step) if y[0] == "in" and F.tr(loop[0], y) == step}
        if len(syms) != 1:
            return bad(loop[0], "trimmed hash is not the running hash")
        H = next(iter(syms))
        for o in loop:
            if F.tr(o, H) != step and hash_same(F.tr(o, H), step) is not True:
                return bad(o, "running hash not updated by %s" % show(F.tr(o, H)))
        for i in init:
            if F.tr(i, H) != next(iter(inits)):
                return bad(i, "running and trimmed hash start differently")
            if F.tr(i, NT) != C0:
                return bad(i, "trimmed length starts at %s" % show(F.tr(i, NT)))
        ok = hash_step(step, H, sb[id(loop[0])])
        if ok is not True:
            return bad(loop[0], ok)
    ctx.ob(what, True)


def hash_same(a, b):
    return a == b


def hash_step(step, H, byte):
    if step == H or not mentions(step, lambda y: y == byte or y == strip(byte)):
        return "the hash step does not use the stored byte"
    if not mentions(step, lambda y: y == H):
        return "the hash step forgets the previous bytes"
    for y in walk(step):
        if y[0] in ("in", "ld", "arg", "call") and y != H and not mentions(byte, lambda z: z == y):
            return "the hash depends on %s" % show(y)
    return True


# ------------------------------------------------------------------ key buffer
def keybuf(ctx, m):
    n = 0
    bad = None
    for x in m.all:
        for e in ev_calls(x, "realloc"):
            if e[2][0] == m.kbuf:
                st = [s[2] for s in x.ev if s[0] == "store" and s[1] == m.klen[1]]
                kb = [s[2] for s in x.ev if s[0] == "store" and s[1] == m.kbuf[1]]
                n += 1
                if not st or st[-1] != e[2][1]:
                    bad = (x, "reallocated to %s but recorded length is %s" % (show(e[2][1]), show(st[-1]) if st else "unchanged"))
                elif not kb or kb[-1] != e[4]:
                    bad = (x, "result of realloc not kept")
                elif not P(x).lt(m.klen, e[2][1]) and not doubles(e[2][1], m.klen):
                    bad = (x, "buffer does not grow")
        if not any(e[0] == "call" and e[1] == "realloc" and e[2][0] == m.kbuf for e in x.ev) and \
                any(s[0] == "store" and s[1] == m.klen[1] for s in x.ev):
            bad = (x, "recorded length changes without reallocation")
    hc = hash_calls(m)
    ctx.need(len(hc), 1, "hash calls in " + m.f)
    for x, e in hc:
        n += 1
        al = e[2][2]
        pre = [s[2] for s in x.ev[:x.ev.index(e)] if s[0] == "store" and s[1] == al]
        ln = [q[2] for q in x.ev if q[0] == "pre" and q[1] == e[3]][-1]
        hd = [s[2] for s in x.ev[:x.ev.index(e)] if s[0] == "store" and s[1] == m.head[1]]
        hd = hd[-1] if hd else m.head
        kl = [s[2] for s in x.ev[:x.ev.index(e)] if s[0] == "store" and s[1] == m.klen[1]]
        kl = kl[-1] if kl else m.klen
        if not P(x).le(add(hd, ln), kl):
            bad = (x, "key copied without knowing that the buffer has room for it")
        if any(s[0] == "store" and s[1] == al for s in x.ev[x.ev.index(e):]) or any(
                s[0] == "store" and s[1] == al for y in m.all if not m.comp and y.src != 0 and not any(h is y for h, _ in hc) for s in y.ev):
            bad = (x, "the length the hash function leaves is not the one used")
        if e[2][0] != m.S:
            bad = (x, "hash of another map")
        if not m.comp and e[2][1] != m.args[1]:
            bad = (x, "hash of %s" % show(e[2][1]))
        if not m.comp:
            vals = [ln] if x.src == 0 or ln[0] == "arg" else [v for _, v in m.back(x.src, ln, {0})]
            if not vals or any(strip(v) != m.args[-1] for v in vals):
                bad = (x, "length passed to the hash is %s" % [show(v) for v in vals])
    ctx.ob("%s: key buffer room (%d sites)" % (m.f, n), bad is None, bad[0].where() if bad else "", bad[1] if bad else "", bad[0].trail() if bad else None)


def doubles(new, old):
    c, d = lin_parts(new)
    return set(d) == {old} and d[old] >= 2 and c >= 0


# ------------------------------------------------------------------ probing and results
def probe(ctx, m):
    pr = probes(m)
    # everything reachable after new entries were allocated belongs to growth
    start = {x.dst for x in m.arr if any(e[0] == "store" and e[1] == m.ents[1] for e in x.ev)}
    grown = set()
    todo = list(start)
    while todo:
        s = todo.pop()
        if s not in grown:
            grown.add(s)
            todo += [x.dst for x in m.arr if x.src == s]
    m.grown = grown
    hs = [(s, b) for s, bs in pr.items() for b in bs if s not in grown]
    bad = []
    if len(hs) != 1:
        raise AnalysisError("C17: %s: %d probe loops found, expected 1" % (m.f, len(hs)))
    H, E = hs[0]
    m.H, m.E = H, E

    def no(x, msg):
        bad.append((x, msg))

    # fragments that belong to the lookup: H and what can reach H again
    def reach(s):
        seen, todo = set(), [s]
        while todo:
            q = todo.pop()
            for x in m.arr:
                if x.src == q and x.dst not in seen:
                    seen.add(x.dst)
                    todo.append(x.dst)
        return seen
    R = {s: reach(s) for s in m.live}
    look = {H} | {s for s in m.live if H in R[s] and s in R[H]}
    m.look = look
    pre = {s for s in m.live if H in R[s]} - look
    hc = hash_calls(m)
    al = hc[0][1][2][2]
    m.npart = ("ld", al, 0)
    # --- what identifies the key: length and hash
    HS = None
    # --- slot arithmetic
    X = slot_index(m.ents, E)
    for x in [x for x in m.arr if x.dst == H]:
        e2 = m.tr(x, E)
        i2 = slot_index(m.tr(x, m.ents), e2)
        if i2 is None:
            no(x, "entry address %s is not a slot of the table" % show(e2))
            continue
        r = masked(i2, m.limit)
        if x.src not in look:
            if r is None:
                no(x, "probing starts at %s, not inside the table" % show(i2))
                continue
            if HS is None:
                HS = r
            elif HS != r and not m.comp:
                no(x, "probing starts from different hashes")
        else:
            # next slot: need the index symbol
            j = None
            if r is not None:
                j = sub(r, C1)
            else:
                # if (++idx == limit) idx = 0
                j = None
                for y in [y for y in walk(i2) if y[0] == "in"]:
                    if sub(i2, y) == C1:
                        j = y
                if i2 == C0:
                    for T, f in x.st.facts.items():
                        L = mk_lin(0, dict(T))
                        for y in [y for y in walk(L) if y[0] == "in"]:
                            if P(x).eq(add(y, C1), m.limit):
                                j = y
                elif j is not None and not P(x).lt(add(j, C1), m.limit) and not P(x).true(mk_cmp("ne", add(j, C1), m.limit)):
                    no(x, "slot index runs past the table")
                    continue
            if j is None:
                no(x, "next slot is %s" % show(i2))
                continue
            # j must be the index of E whenever the header is reached
            for y in [y for y in m.arr if y.dst == H]:
                jj = slot_index(m.tr(y, m.ents), m.tr(y, E))
                if jj is not None and m.tr(y, j) != jj and X != j:
                    no(y, "slot index and entry pointer disagree")
    occ = lambda x, e=E: x.truth(eq(ent(e, "val_idx"), M1))
    key = m.args[1]
    K = m.v(key, "size") if m.comp else m.npart

    def lens(x, e, n):
        return x.truth(eq(ent(e, "key_len"), n))
    # --- decisions at the probe header
    nfound = nabs = ncont = 0
    foundset, absset = [], []
    for x in [x for x in m.all if x.src in look]:
        e = E
        if x.src != H:
            # inner comparison loop of composite keys
            continue
        oc = occ(x)
        goes_on = x.dst in look
        cmps = [(c, x.truth(eq(c[4], C0))) for c in ev_calls(x, "memcmp")]
        if goes_on and x.dst == H:
            ncont += 1
            if oc is not False:
                no(x, "passes an empty entry")
            h = [T for T in x.st.facts if any(a == ent(E, "hash") for a, _ in T)]
            hdiff = False
            for T in h:
                f = x.st.facts[T]
                L = mk_lin(0, dict(T))
                if (f[0] > 0 or f[1] < 0 or 0 in f[2]):
                    o2 = sub(L, ent(E, "hash")) if dict(T)[ent(E, "hash")] == 1 else add(L, ent(E, "hash"))
                    o2 = o2 if dict(T)[ent(E, "hash")] == -1 else scale(o2, -1)
                    hdiff = hdiff or is_hash(m, o2, HS, H)
            kdiff = any(t is False and cmp_ok(m, x, c, E, K) for c, t in cmps)
            if not (lens(x, E, K) is False or hdiff or kdiff):
                no(x, "passes an entry without knowing that it differs")
        elif goes_on:
            if lens(x, E, K) is not True:
                no(x, "compares parts of keys with different numbers of parts")
            if oc is not False:
                no(x, "compares with an empty entry")
        elif oc is True:
            nabs += 1
            absset.append((x, E))
        else:
            nfound += 1
            if oc is not False:
                no(x, "stops at an entry without knowing whether it is empty")
            if m.comp:
                if not (lens(x, E, K) is True and x.truth(eq(K, C0)) is True):
                    no(x, "accepts an entry without comparing its parts")
            elif not (lens(x, E, K) is True and any(t is True and cmp_ok(m, x, c, E, K) for c, t in cmps)):
                no(x, "accepts an entry without comparing length and bytes")
            foundset.append((x, E))
    if m.comp:
        inner = look - {H}
        if len(inner) != 1:
            raise AnalysisError("C17: %s: %d part comparison loops" % (m.f, len(inner)))
        I = next(iter(inner))
        ins = [x for x in m.all if x.src == I]
        # part index and compared parts
        ks = set()
        for x in ins:
            for c in ev_calls(x, "memcmp"):
                ks.add(c[2])
        idx = None
        for c in ks:
            for e0 in walk(c[0]):
                pass
        # the entry under comparison, as the inner loop names it
        Ein = {b for x in ins for b in ebases(x)}
        Ein = {b for b in Ein if all(v == E for _, v in m.back(I, b, {H}))}
        if len(Ein) != 1:
            raise AnalysisError("C17: %s: entry under comparison not found" % m.f)
        EI = next(iter(Ein))
        # part index symbol: from the end test against key_len
        cand = set()
        for x in ins:
            for T in x.st.facts:
                L = dict(T)
                if ent(EI, "key_len") in L and len(L) == 2:
                    o2 = next(a for a in L if a != ent(EI, "key_len"))
                    if o2[0] == "in":
                        cand.add(o2)
                if K in L and len(L) == 2:
                    o2 = next(a for a in L if a != K)
                    if o2[0] == "in":
                        cand.add(o2)
        cand = [c for c in cand if all(m.tr(x, c) == C0 for x in m.arr if x.dst == I and x.src == H)]
        if len(cand) != 1:
            raise AnalysisError("C17: %s: part index not found" % m.f)
        J = cand[0]
        parts = None
        for x in ins:
            p_ = P(x)
            lenv = None
            kd = add(m.v(m.keys, "data"), scale(add(ent(EI, "key_idx"), J), 16))
            td = add(m.v(m.ktmp, "data"), scale(J, 16))

            def part(b, n):
                al_ = []
                for bb in b:
                    al_.append(ld(("fld", klname(m) + n, bb)))
                return al_
            kbs, tbs = keyloc_bases(m, I, x, kd, EI, True), keyloc_bases(m, I, x, td, EI, False)
            leq = [x.truth(eq(a, b)) for a in part(kbs, "len") for b in part(tbs, "len")]
            cm = []
            for c in ev_calls(x, "memcmp"):
                a0, a1, n_ = c[2]
                kb = m.kbuf
                ok = any((a0 == add(kb, i) and a1 == add(kb, j)) or (a1 == add(kb, i) and a0 == add(kb, j)) for i in part(kbs, "idx") for j in part(tbs, "idx"))
                ok = ok and any(p_.eq(n_, a) for a in part(kbs, "len") + part(tbs, "len"))
                if ok:
                    cm.append(x.truth(eq(c[4], C0)))
            more = p_.lt(J, ent(EI, "key_len")) or p_.lt(J, K)
            done = p_.le(ent(EI, "key_len"), J) or p_.le(K, J) and p_.true(eq(K, ent(EI, "key_len")))
            if x.dst == I:
                if not (True in leq and True in cm):
                    no(x, "goes to the next part without knowing that this one is equal")
                if m.tr(x, J) != add(J, C1) or not more:
                    no(x, "skips parts")
            elif x.dst == H:
                if not (more and (False in leq or False in cm)):
                    no(x, "passes an entry whose parts may all be equal")
                ncont += 1
            else:
                nfound += 1
                if not done:
                    no(x, "accepts an entry before all parts were compared")
                foundset.append((x, EI))
        composite_parts(ctx, m, pre, no)
    m.HS = HS
    # hash symbol really is the hash of the key just copied
    if HS is not None and not m.comp:
        for x in [x for x in m.arr if x.dst == H and x.src not in look]:
            i2 = masked(slot_index(m.tr(x, m.ents), m.tr(x, E)), m.limit)
            if not any(e[4] == i2 for e in x.ev if e[0] == "call" and e[1] == "<indirect>"):
                no(x, "probing starts from %s, not from the key's hash" % show(i2))
    results(m, foundset, absset, no)
    ctx.need(nabs, 1, "absent outcomes of " + m.f)
    ctx.need(nfound, 1, "found outcomes of " + m.f)
    ctx.need(ncont, 1, "probe steps of " + m.f)
    b = bad[0] if bad else None
    ctx.ob("%s: probing and result (%d absent, %d found, %d step paths)" % (m.f, nabs, nfound, ncont), not bad, b[0].where() if b else "", b[1] if b else "", b[0].trail() if b else None)


def ebases(x):
    b = set()
    L = [mk_lin(0, dict(T)) for T in x.st.facts] + [a for e in x.ev if e[0] == "call" for a in e[2]] + ([x.val] if x.val else [])
    for e in L:
        for y in walk(e):
            if y[0] == "ld" and y[1][0] == "fld" and y[1][1].startswith(ENT):
                b.add(y[1][2])
    return b


def keyloc_bases(m, I, x, want, EI, stored):
    """addresses used as _keyloc on this path that denote the wanted one"""
    r = set()
    L = [mk_lin(0, dict(T)) for T in x.st.facts] + [a for e in x.ev if e[0] == "call" for a in e[2]]
    for e in L:
        for y in walk(e):
            if y[0] == "ld" and y[1][0] == "fld" and KL.match(y[1][1]):
                b = y[1][2]
                if b == want or resolve(m, I, b) == want or P(x).eq(resolve(m, I, b), want):
                    r.add(b)
    return r


def resolve(m, I, b):
    """rewrite in-symbols of fragment I that were fixed when it was entered from H"""
    d = {}
    for y in walk(b):
        if y[0] == "in":
            vs = m.back(I, y, {m.H})
            if vs and len({v for _, v in vs}) == 1 and not any(m.tr(o, y) != y for o in m.arr if o.dst == I and o.src == I):
                v = vs[0][1]
                if not mentions(v, lambda z: z[0] in ("call", "ssa", "phi")):
                    d[y] = v

    def s(e):
        if e in d:
            return d[e]
        if e[0] == "L":
            r = const(e[1])
            for a, k in e[2]:
                r = add(r, scale(s(a), k))
            return r
        if e[0] == "op" and e[1] == "mul":
            return mulall(s(z) for z in e[2:])
        if e[0] in ("c", "in", "arg"):
            return e
        return tuple(s(z) if isinstance(z, tuple) and z and isinstance(z[0], str) else z for z in e)
    e = s(b)
    # element sizes of the part arrays are 16 (assumed here, checked in the constructors)
    es = {m.v(m.keys, "_elem_size"): const(16), m.v(m.ktmp, "_elem_size"): const(16), m.v(m.args[1], "_elem_size"): const(16)}

    def s2(e):
        if e in es:
            return es[e]
        if e[0] == "L":
            r = const(e[1])
            for a, k in e[2]:
                r = add(r, scale(s2(a), k))
            return r
        if e[0] == "op" and e[1] == "mul":
            return mulall(s2(z) for z in e[2:])
        return e
    return s2(e)


def cmp_ok(m, x, c, E, K):
    a0, a1, n = c[2]
    i, j = add(m.kbuf, ent(E, "key_idx")), add(m.kbuf, m.head)
    return {a0, a1} == {i, j} and (P(x).eq(n, K) or P(x).eq(n, ent(E, "key_len")))


def is_hash(m, e, HS, H):
    e = strip(e)
    if e == HS:
        return True
    if e[0] == "in":
        vs = m.back(H, e, {s for s in m.live if s not in m.look})
        return bool(vs) and all(masked(slot_index(m.tr(o, m.ents), m.tr(o, m.E)) or C0, m.limit) == v for o, v in vs)
    return False


def composite_parts(ctx, m, pre, no):
    """every part of the key is copied, located and hashed, in order"""
    hc = hash_calls(m)
    al = hc[0][1][2][2]
    key = m.args[1]
    # number of bytes used by the parts: what the lookup gives back at its end
    ends = [x for x in m.all if x.src in m.look and x.dst not in m.look and x.truth(eq(ent(m.E, "val_idx"), M1)) is not True]
    fin = {lastw(x, m.head[1]) for x in ends}
    ks = {sub(m.head, f) for f in fin}
    if len(ks) != 1 or next(iter(ks))[0] != "in":
        return no(ends[0], "a lookup leaves the key buffer position at %s" % [show(f) for f in fin])
    KB = m.KB = next(iter(ks))
    rel = [x for x in m.arr if x.dst in pre | m.look]
    for x in rel:
        d = sub(m.tr(x, m.head), m.head)
        if x.src == 0:
            if m.tr(x, KB) != C0 or d != C0:
                no(x, "bytes used start at %s" % show(m.tr(x, KB)))
        elif sub(m.tr(x, KB), KB) != d:
            no(x, "bytes used and buffer position change differently")
    for x, e in hc:
        if e[2][2] != al:
            no(x, "several length slots")
        it = e[2][1]
        pre_ = [s[2] for s in x.ev[:x.ev.index(e)] if s[0] == "store" and s[1] == al]
        if not (it[0] == "ld" and it[1][0] == "fld" and it[1][1] == "stringview.data" and pre_ and strip(pre_[-1]) == ld(("fld", "stringview.len", it[1][2]))):
            no(x, "part's text or length is %s" % show(it))
            continue
        IT = it[1][2]
        st = {s[1][1]: s for s in x.ev[x.ev.index(e):] if s[0] == "store" and s[1][0] == "fld" and KL.match(s[1][1])}
        st = {k.split(".")[1]: v for k, v in st.items()}
        if set(st) != {"idx", "len"}:
            no(x, "location of the part not recorded")
            continue
        B = st["idx"][1][2]
        ln = x.read(al)
        if st["len"][1][2] != B or strip(st["len"][2]) != ln:
            no(x, "length of the part recorded as %s" % show(st["len"][2]))
        if st["idx"][2] != m.head:
            no(x, "position of the part recorded as %s" % show(st["idx"][2]))
        if lastw(x, m.head[1]) != add(m.head, ln):
            no(x, "buffer position after a part is %s" % show(lastw(x, m.head[1])))
        # walking key and locations in step
        es = lambda e_: resolve(m, x.src, e_)
        for y in rel:
            if y.src in m.look:
                continue
            for sym, first, name in ((IT, m.v(key, "data"), "key part"), (B, None, "part location")):
                new = m.tr(y, sym)
                if y.dst in m.look or y.dst == m.H:
                    continue
                if y.src == 0:
                    f = first if first is not None else m.tr(y, m.v(m.ktmp, "data"))
                    if not es16(m, y, sub(new, f)):
                        no(y, "first %s is %s" % (name, show(new)))
                elif y is x:
                    if sub16(m, sub(new, sym)) != const(16):
                        no(y, "next %s is %s" % (name, show(new)))
                elif new != sym:
                    no(y, "%s moves without a part" % name)
        # ends only after the last part
        for y in rel:
            if y.dst == m.H and y.src not in m.look:
                end = add(m.v(key, "data"), scale(m.v(key, "size"), 16))
                if not _rel16(m, y, sub(IT, end), lambda lo, hi, ne: lo >= 0):
                    no(y, "hashing stops before the last part")
            elif y is x:
                end = add(m.v(key, "data"), scale(m.v(key, "size"), 16))
                if not _rel16(m, y, sub(IT, end), lambda lo, hi, ne: hi < 0 or 0 in ne):
                    no(y, "hashing runs past the last part")
        # the combined hash is a function of the parts only
        HS = None
        for y in rel:
            if y.dst == m.H and y.src not in m.look:
                HS = masked(slot_index(m.tr(y, m.ents), m.tr(y, m.E)), m.limit)
        if HS is None or HS[0] != "in":
            no(x, "combined hash not found")
            continue
        new = m.tr(x, HS)
        if not mentions(new, lambda z: z == e[4]):
            no(x, "hash of a part is ignored")
        for z in walk(new):
            if z[0] in ("in",) and z != HS and not mentions(e[4], lambda w: w == z):
                steps = {sub(m.tr(y, z), z) for y in rel if y.src in pre and y.src != 0 and y.dst in pre}
                ini = {m.tr(y, z) for y in rel if y.src == 0}
                if not all(is_c(s) for s in steps) or not all(is_c(s) for s in ini):
                    no(x, "combined hash depends on %s" % show(z))
            elif z[0] == "ld" and not mentions(e[4], lambda w: w == z):
                no(x, "combined hash depends on %s" % show(z))
        for y in rel:
            if y.src == 0 and not is_c(m.tr(y, HS)):
                no(y, "combined hash starts from %s" % show(m.tr(y, HS)))
            elif y.src in pre and y is not x and y.src != 0 and m.tr(y, HS) != HS:
                no(y, "combined hash changes without a part")
    # room for the locations
    for x in [x for x in m.arr if x.src == 0]:
        sz = x.read(("fld", "vec.size", x.read(m.ktmp[1])))
        if not P(x).eq(sz, m.v(key, "size")):
            no(x, "room for %s part locations" % show(sz))


def sub16(m, e):
    es = {m.v(m.keys, "_elem_size"), m.v(m.ktmp, "_elem_size"), m.v(m.args[1], "_elem_size")}
    c, d = lin_parts(e)
    r = const(c)
    for a, k in d.items():
        if a in es:
            r = add(r, const(16 * k))
        elif a[0] == "op" and a[1] == "mul":
            r = add(r, scale(mulall(const(16) if z in es else z for z in a[2:]), k))
        else:
            r = add(r, scale(a, k))
    return r


def es16(m, y, e):
    return sub16(m, e) == C0


def _rel16(m, y, d, test):
    """d (bytes) relates to 0 as test says, by one fact of the path (possibly stated in elements)"""
    d = sub16(m, d)
    if is_c(d):
        return test(d[1], d[1], frozenset())
    N, Q = ir.Analysis.NEG, ir.Analysis.POS
    for T, f in y.st.facts.items():
        L = sub16(m, mk_lin(0, dict(T)))
        for s in (1, -1, 16, -16):
            r = sub(d, scale(L, s))
            if is_c(r):
                c = r[1]
                lo, hi = (f[0], f[1]) if s > 0 else (-f[1], -f[0])
                lo = lo * abs(s) + c if lo > N else N
                hi = hi * abs(s) + c if hi < Q else Q
                ne = frozenset(v * s + c for v in f[2])
                if test(lo, hi, ne):
                    return True
    return False


def results(m, found, absent, no):
    f = m.f
    vs = m.values
    es, size, data = m.v(vs, "_elem_size"), m.v(vs, "size"), m.v(vs, "data")
    slot = lambda d, i: add(d, mul(i, es))
    src = m.args[-2] if not m.comp else m.args[-1]
    head0 = sub(m.head, m.KB) if m.comp and hasattr(m, "KB") else m.head

    def entry_stores(x):
        return [e for e in x.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1].startswith(ENT)]

    def copies(x):
        return [e[2] for e in ev_calls(x, "memcpy", "memmove") if not (len(e[2]) > 3 and e[2][0][0] == "al")]
    for x, E in found + absent:
        isf = any(x is y for y, _ in found)
        if f in ("set_nhas",):
            t = x.truth(as_bool(strip(x.val)))
            v = as_bool(strip(x.val))
            if t is not isf:
                no(x, "answers %s for %s key" % (show(x.val), "a present" if isf else "an absent"))
        if f in ("hashmap_nget", "compositemap_get"):
            want = slot(data, ent(E, "val_idx")) if isf else C0
            if not P(x).eq(x.val, want):
                no(x, "returns %s for %s key" % (show(x.val), "a present" if isf else "an absent"))
        if f in ("set_nhas", "hashmap_nget", "compositemap_get") or isf:
            if entry_stores(x):
                no(x, "changes an entry %s" % ("of a present key" if isf else "in a lookup"))
            if lastw(x, m.head[1]) != head0:
                no(x, "leaves the key buffer position at %s" % show(lastw(x, m.head[1])))
            if f not in ("multimap_nset",) and lastw(x, size[1]) != size:
                no(x, "changes the number of values")
            if not isf or f in ("set_nadd", "set_nhas", "hashmap_nget", "compositemap_get"):
                continue
        if isf:
            if f == "multimap_nset":
                ev = slot(data, ent(E, "val_idx"))
                n0 = ld(("fld", "vec.size", ev))
                if x.truth(lt(n0, C0)):
                    continue        # sizes are not negative
                e2 = ld(("fld", "vec._elem_size", ev))
                d2 = x.read(("fld", "vec.data", ev))
                if x.read(("fld", "vec.size", ev)) != add(n0, C1):
                    no(x, "value not appended to the entry's list")
                ok = any(P(x).eq(c[0], add(d2, mul(n0, e2))) and c[1] == src and P(x).eq(c[2], e2) for c in copies(x))
                if not ok:
                    no(x, "value not copied to the end of the entry's list")
            else:
                c = copies(x)
                if len(c) != 1 or not P(x).eq(c[0][0], slot(data, ent(E, "val_idx"))) or c[0][1] != src or not P(x).eq(c[0][2], es):
                    no(x, "value of a present key not replaced in its place")
            continue
        # a new entry
        g = lambda n: lastw(x, ("fld", ENT + n, E))
        n = m.v(m.args[1], "size") if m.comp else m.npart
        if f == "set_nadd":
            if x.truth(eq(g("val_idx"), M1)) is not False:
                no(x, "entry not marked as used")
            if x.read(vs[1]) != add(vs, C1):
                no(x, "number of entries not counted")
        else:
            if g("val_idx") != size:
                no(x, "value position recorded as %s" % show(g("val_idx")))
        want = m.v(m.keys, "size") if m.comp else m.head
        if g("key_idx") != want:
            no(x, "key position recorded as %s" % show(g("key_idx")))
        if not P(x).eq(strip(g("key_len")), n):
            no(x, "key length recorded as %s" % show(g("key_len")))
        if not is_hash(m, g("hash"), m.HS, m.H):
            no(x, "hash recorded as %s" % show(g("hash")))
        want = m.head if m.comp else add(m.head, n)
        if not P(x).eq(lastw(x, m.head[1]), want):
            no(x, "key buffer position after adding a key is %s" % show(lastw(x, m.head[1])))
        if f != "set_nadd":
            if lastw(x, size[1]) != add(size, C1):
                no(x, "value not appended")
            d2 = lastw(x, data[1])
            c = [c for c in copies(x) if P(x).eq(c[0], slot(d2, size)) and P(x).eq(c[2], es)]
            if len(c) != 1:
                no(x, "value not copied to its place")
            elif f == "multimap_nset":
                nv = c[0][1]
                g2 = lambda q: lastw(x, ("fld", "vec." + q, nv))
                me = ld(fl("hashmap", "elem_size", m.S))
                if g2("size") != C1 or g2("_elem_size") != me or not any(q[0] == g2("data") and q[1] == src and P(x).eq(q[2], me) for q in copies(x)):
                    no(x, "new list does not hold the value")
            elif c[0][1] != src:
                no(x, "value copied from %s" % show(c[0][1]))
        if m.comp:
            ks, kt = m.keys, m.ktmp
            d2 = lastw(x, ("fld", "vec.data", ks))
            s0, k0 = m.v(ks, "size"), m.v(kt, "size")
            if not P(x).eq(lastw(x, ("fld", "vec.size", ks)), add(s0, k0)):
                no(x, "part locations not added")
            ok = False
            for c in copies(x):
                if es16(m, x, sub(c[0], add(d2, scale(s0, 16)))) or es16(m, x, sub(c[0], add(d2, mul(s0, m.v(ks, "_elem_size"))))):
                    nb = sub16(m, c[2])
                    if es16(m, x, sub(c[1], m.v(kt, "data"))) and (nb == scale(k0, 16) or nb == scale(add(k0, C1), 16)):
                        ok = True
            if not ok:
                no(x, "part locations not copied to their place")


# ------------------------------------------------------------------ growth
def num(e, env):
    """numeric value of e under env, or None"""
    if e in env:
        return env[e]
    k = e[0]
    if k in ("c", "str"):
        return e[1]
    if k == "L":
        r = e[1]
        for a, c in e[2]:
            v = num(a, env)
            if v is None:
                return None
            r += v * c
        return r
    if k in ("cmp", "fcmp") or k == "op":
        op = e[1]
        a = [num(x, env) if isinstance(x, tuple) else x for x in e[2:]]
        if any(x is None for x in a):
            return None
        try:
            if op in ("fmul", "mul"):
                return a[0] * a[1]
            if op in ("fdiv",):
                return a[0] / a[1]
            if op in ("fadd",):
                return a[0] + a[1]
            if op in ("fsub",):
                return a[0] - a[1]
            if op in ("div", "udiv", "sdiv"):
                return a[0] // a[1]
            if op == "rem":
                return a[0] % a[1]
            if op in ("uitofp", "sitofp"):
                return float(a[0])
            if op in ("fptoui", "fptosi"):
                return int(a[0])
            if op == "fp":
                return float(a[0])
            if op == "shl":
                return a[0] << a[1]
            if op in ("shr", "lshr", "ashr"):
                return a[0] >> a[1]
            if op == "fcmp":
                p_, x, y = a
                return int({"ogt": x > y, "oge": x >= y, "olt": x < y, "ole": x <= y, "oeq": x == y, "une": x != y, "ugt": x > y, "uge": x >= y, "ult": x < y, "ule": x <= y}[p_])
        except Exception:
            return None
    if k == "fp":
        return float(e[1])
    return None


def may_stay(x, count, limit):
    """a power-of-two limit for which the facts of the path allow count == limit, or None"""
    c, d = lin_parts(count)
    if len(d) != 1:
        return 1
    base = next(iter(d))
    for k in range(0, 41):
        L = 1 << k
        env = {limit: L, base: L - c}
        ok = True
        for T, f in x.st.facts.items():
            v = num(mk_lin(0, dict(T)), env)
            if v is None:
                continue
            if not (f[0] <= v <= f[1]) or v in f[2]:
                ok = False
                break
        if ok:
            return L
    return None


def grow(ctx, m):
    bad = []

    def no(x, msg):
        bad.append((x, msg))
    look = m.look
    vs = m.values
    n = 0
    for x in [x for x in m.all if x.src in look]:
        if x.dst is not None and x.dst in look:
            continue
        cnt = x.read(vs[1]) if m.f == "set_nadd" else x.read(("fld", "vec.size", x.read(vs[1])))
        base = vs if m.f == "set_nadd" else m.v(vs, "size")
        if cnt == base:
            continue
        if x.dst is None and not any(e[0] == "store" and e[1] == m.ents[1] for e in x.ev):
            n += 1
            k = may_stay(x, cnt, m.limit)
            if k is not None:
                no(x, "the table may become full (for instance %d entries of %d) without growing" % (k, k))
    ctx.need(n, 1, "additions without growth in " + m.f)
    # the new table
    al = [x for x in m.all if any(e[0] == "store" and e[1] == m.ents[1] for e in x.ev)]
    ctx.need(len(al), 1, "allocations of a larger table in " + m.f)
    for x in al:
        new = x.read(m.ents[1])
        nl = x.read(m.limit[1])
        mc = [e for e in ev_calls(x, "malloc", "calloc", "realloc") if e[4] == new]
        bytes_ = None
        if mc:
            e = mc[-1]
            bytes_ = e[2][0] if e[1] == "malloc" else mul(e[2][0], e[2][1]) if e[1] == "calloc" else e[2][1]
        if bytes_ is None or bytes_ != scale(nl, 32):
            no(x, "table of %s slots has %s bytes" % (show(nl), show(bytes_) if bytes_ else "unknown"))
        ms = [e for e in ev_calls(x, "memset") if e[2][0] == new]
        if not ms or ms[-1][2][1] not in (M1, const(255)) or ms[-1][2][2] != scale(nl, 32):
            no(x, "new table not emptied")
        bad += power(m, x, nl, look)
    if bad:
        return fin(ctx, m, bad, n)
    # re-insertion
    pr = {s: bs for s, bs in probes(m).items() if s in m.grown}
    D = Sx = None
    for s, bs in pr.items():
        for b in bs:
            inv_d = slot_index(m.ents, b)
            # destination: address derived from the new table on every arrival
            arr = [x for x in m.arr if x.dst == s]
            if arr and all(slot_index(m.tr(x, m.ents), m.tr(x, b)) is not None for x in arr):
                D = (s, b)
            else:
                Sx = (s, b)
    if Sx and not D:
        no(al[0], "entries are put into the larger table without looking for an empty slot")
        return fin(ctx, m, bad, n)
    if not D or not Sx:
        raise AnalysisError("C17: %s: re-insertion loops not found (%s)" % (m.f, {s: [show(b) for b in bs] for s, bs in pr.items()}))
    sD, eD = D
    sS, eS = Sx
    look0 = look
    # source: walks all old entries
    bad += walk_src(m, sS, eS, sD, look)
    for x in [x for x in m.all if x.src == sS]:
        empty = x.truth(eq(ent(eS, "val_idx"), M1))
        if x.dst == sD:
            if empty is not False:
                no(x, "re-inserts an empty entry")
            i = masked(slot_index(m.tr(x, m.ents), m.tr(x, eD)), m.limit)
            if i is None or strip(i) != ent(eS, "hash"):
                no(x, "re-insertion starts at %s" % show(i or m.tr(x, eD)))
        elif x.dst == sS:
            if empty is not True:
                no(x, "drops an entry")
    for x in [x for x in m.all if x.src == sD]:
        empty = x.truth(eq(ent(eD, "val_idx"), M1))
        cp = [e[2] for e in ev_calls(x, "memcpy", "memmove") if e[2][0] == eD]
        if x.dst == sD:
            if empty is not False or cp:
                no(x, "passes an empty slot or writes to a used one")
            e2 = m.tr(x, eD)
            i2 = slot_index(m.tr(x, m.ents), e2)
            r = masked(i2, m.limit) if i2 is not None else None
            j = sub(r, C1) if r is not None else None
            okj = j is not None and (slot_index(m.ents, eD) == j or all(m.tr(y, j) == slot_index(m.tr(y, m.ents), m.tr(y, eD)) for y in m.arr if y.dst == sD))
            if not okj and i2 is not None:
                if i2 == C0:
                    okj = any(P(x).eq(add(y, C1), m.limit) for T in x.st.facts for y in walk(mk_lin(0, dict(T))) if y[0] == "in")
                else:
                    okj = any(sub(i2, y) == C1 and (P(x).lt(i2, m.limit) or P(x).true(mk_cmp("ne", i2, m.limit))) for y in walk(i2) if y[0] == "in")
            if not okj:
                no(x, "next slot is %s" % show(e2))
        else:
            if empty is not True:
                no(x, "uses a slot that is not empty")
            # the source entry, as this fragment names it
            if len(cp) == 1 and cp[0][2] == const(32):
                srcs = m.back(sD, cp[0][1], {sS})
                if not srcs or any(v != eS for _, v in srcs):
                    no(x, "copies %s into the new table" % show(cp[0][1]))
            else:
                no(x, "entry not copied as a whole")
    for x in [x for x in m.ret if x.src in m.grown]:
        fr = [e[2][0] for e in ev_calls(x, "free")]
        if len(fr) != 1 or any(v != m.ents for _, v in m.back(x.src, fr[0], look)):
            no(x, "old table not released exactly once")
    fin(ctx, m, bad, n)


def walk_src(m, sS, eS, sD, look):
    bad = []
    # start: old table, slot 0
    for o, v in m.back(sS, eS, look):
        pass
    sym = [y for y in walk(eS) if y[0] == "in"]
    inits = []
    for x in [x for x in m.arr if x.dst == sS and x.src not in (sS, sD)]:
        e0 = m.tr(x, eS)
        if x.src in look:
            if e0 != m.ents:
                bad.append((x, "re-insertion starts at %s" % show(e0)))
        else:
            vals = m.back(x.src, e0, look)
            if any(v != m.ents for _, v in vals) or not vals:
                bad.append((x, "re-insertion starts at %s" % [show(v) for _, v in vals]))
    for x in [x for x in m.arr if x.dst == sS and x.src in (sS, sD)]:
        e1 = m.tr(x, eS)
        if x.src == sS:
            if sub(e1, eS) != const(32):
                bad.append((x, "next old entry is %s" % show(e1)))
        else:
            vs = m.back(sD, e1, {sS})
            if not vs or any(sub(v, eS) != const(32) for _, v in vs):
                bad.append((x, "next old entry is %s" % [show(v) for _, v in vs]))
    # end: all old slots visited
    for x in [x for x in m.all if x.src == sS and x.dst not in (sS, sD)]:
        ok = False
        for T, f in x.st.facts.items():
            # the end test compares something with a bound: index with the old limit, or pointer with the old end
            L = mk_lin(0, dict(T))
            ats = [a for a, _ in T if a[0] == "in"]
            if len(ats) < 2 and not any(mentions(L, lambda y: y == a) for a in ats):
                continue
            vals = m.back(sS, L, look) if all(True for _ in ats) else []
            # L at loop start (in terms of the old table): index - limit or pointer - end
            init = [v for o, v in m.arr_init(sS, L, look, sD)] if hasattr(m, "arr_init") else []
            step = None
            for y in [y for y in m.arr if y.dst == sS and y.src == sS]:
                step = sub(m.tr(y, L), L)
            i0 = []
            for y in [y for y in m.arr if y.dst == sS and y.src not in (sS, sD)]:
                v = m.tr(y, L)
                if y.src in look:
                    i0.append(v)
                else:
                    i0 += [q for _, q in m.back(y.src, v, look)]
            if not i0 or step is None or not is_c(step) or step[1] == 0:
                continue
            # after k iterations L = i0 + step*k; the exit must imply k >= old limit
            s = step[1]
            want = scale(m.limit, -s)
            if all(q == want for q in i0):
                if (s > 0 and f[0] >= 0) or (s < 0 and f[1] <= 0) or f[0] == f[1] == 0:
                    ok = True
        if not ok:
            bad.append((x, "stops before the last old entry"))
    return bad


def power(m, x, nl, look):
    """new limit is a power of two above the old one (given that the old one is a power of two)"""
    bad = []
    c, d = lin_parts(nl)
    if c == 0 and set(d) == {m.limit} and x.src in look:
        k = d[m.limit]
        if k >= 2 and k & (k - 1) == 0:
            return []
        return [(x, "new limit is %s" % show(nl))]
    if nl[0] == "in":
        s = x.src
        arr = [y for y in m.arr if y.dst == s]
        for y in arr:
            v = m.tr(y, nl)
            if y.src == s:
                c, d = lin_parts(v)
                if c or set(d) != {nl} or d[nl] not in (2, 4, 8, 16):
                    bad.append((y, "limit candidate goes to %s" % show(v)))
            elif is_c(v):
                if v[1] < 1 or v[1] & (v[1] - 1):
                    bad.append((y, "limit candidate starts at %s" % show(v)))
            else:
                c, d = lin_parts(v)
                if c or set(d) != {m.limit} or d[m.limit] & (d[m.limit] - 1):
                    bad.append((y, "limit candidate starts at %s" % show(v)))
        # above the old limit
        ok = False
        for T, f in x.st.facts.items():
            L = dict(T)
            if nl not in L:
                continue
            # nl >= something that is at least old limit + 1
            k = L[nl]
            rest = mk_lin(0, {a: c_ for a, c_ in T if a != nl})
            if k == -1 and f[1] < ir.Analysis.POS:
                low = add(rest, const(-f[1]))
            elif k == 1 and f[0] > ir.Analysis.NEG:
                low = add(scale(rest, -1), const(f[0]))
            else:
                continue
            vals = m.back(s, low, look)
            # the bound does not change while searching
            if vals and all(P(o).lt(m.limit, v) for o, v in vals):
                ok = True
        if not ok:
            bad.append((x, "new limit may not exceed the old one"))
        return bad
    return [(x, "new limit is %s" % show(nl))]


def fin(ctx, m, bad, n):
    b = bad[0] if bad else None
    ctx.ob("%s: growth (%d additions without growth)" % (m.f, n), not bad, b[0].where() if b else "", b[1] if b else "", b[0].trail() if b else None)


# ------------------------------------------------------------------ construction, clearing
def life(ctx, p):
    for f in ("set_construct", "hashmap_construct", "multimap_construct", "compositemap_construct"):
        F = Fragments(ctx, p, f, lambda: FragRule(None, {"all"}, 80))
        fn = F.fn
        S = ("arg", fn.args[0][0], fn.args[0][1] or (fn.names.get(fn.args[0][0]) or [""])[0])
        rets = F.returns()
        ctx.need(len(rets), 4, "results of " + f)
        bad = None
        for o in rets:
            x = View(o, PFX)
            if x.infeasible:
                continue
            g = lambda n: x.read(fl("hashmap", n, S))
            L = g("_limit")
            pw = [y for y in walk(L) if y[0] == "in"] or [L]
            if g("_keybuf_head") != C0:
                bad = (x, "key buffer position starts at %s" % show(g("_keybuf_head")))
            mc = {e[4]: e[2][0] for e in ev_calls(x, "malloc")}
            if not (g("_entries") in mc and sub(mc[g("_entries")], scale(L, 32)) == C0):
                bad = (x, "table allocation does not match the limit")
            ms = [e[2] for e in ev_calls(x, "memset") if e[2][0] == g("_entries")]
            if not ms or ms[-1][1] not in (M1, const(255)) or ms[-1][2] != scale(L, 32):
                bad = (x, "table not emptied")
            if not (g("_keybuf") in mc and sub(mc[g("_keybuf")], g("_keybuf_len")) == C0):
                bad = (x, "key buffer allocation does not match its recorded length")
            if not P(x).le(C1, g("_keybuf_len")) and g("_keybuf_len") != L:
                bad = (x, "key buffer may be empty and then never grows")
            if f != "set_construct":
                v = g("values")
                if x.read(("fld", "vec.size", v)) != C0:
                    bad = (x, "values not empty")
                want = const(32) if f == "multimap_construct" else ("arg", fn.args[1][0], fn.args[1][1] or (fn.names.get(fn.args[1][0]) or [""])[0])
                if not P(x).eq(strip(x.read(("fld", "vec._elem_size", v))), want):
                    bad = (x, "values have element size %s" % show(x.read(("fld", "vec._elem_size", v))))
            if f == "compositemap_construct":
                v = g("_keys")
                if x.read(("fld", "vec.size", v)) != C0 or x.read(("fld", "vec._elem_size", v)) != const(16):
                    bad = (x, "part locations not empty or of another size")
                if x.truth(eq(g("_key_temp"), C0)) is not True:
                    bad = (x, "part buffer not cleared")
            if f == "multimap_construct":
                if not P(x).eq(g("elem_size"), ("arg", fn.args[1][0], fn.args[1][1] or (fn.names.get(fn.args[1][0]) or [""])[0])):
                    bad = (x, "list element size is %s" % show(g("elem_size")))
        # limit: power of two loop
        h = F.headers
        for o in F.arrivals():
            pass
        ok = len(h) >= 1
        LS = {v for o in rets for v in [View(o, PFX).read(fl("hashmap", "_limit", S))]}
        for L in LS:
            if is_c(L):
                if L[1] < 1 or L[1] & (L[1] - 1):
                    bad = (rets[0], "limit %d" % L[1])
            elif L[0] == "in":
                for hh in h:
                    for o in F.arrivals(dst=hh):
                        if L[1] in o.raw:
                            v = F.tr(o, L)
                            c, d = lin_parts(v)
                            if not (is_c(v) and v[1] >= 1 and v[1] & (v[1] - 1) == 0) and not (c == 0 and set(d) == {L} and d[L] == 2):
                                bad = (o, "limit candidate goes to %s" % show(v))
            else:
                bad = (rets[0], "limit is %s" % show(L))
        ctx.ob("%s: empty table of a power-of-two size" % f, bad is None, bad[0].where() if bad else "", bad[1] if bad else "", bad[0].trail() if bad else None)
    for f in ("set_clear", "hashmap_clear", "multimap_clear", "compositemap_clear"):
        F = Fragments(ctx, p, f, lambda: FragRule(None, {"all"}))
        fn = F.fn
        S = ("arg", fn.args[0][0], fn.args[0][1] or (fn.names.get(fn.args[0][0]) or [""])[0])
        h = lambda n: ld(fl("hashmap", n, S))
        bad = None
        rets = F.returns()
        ctx.need(len(rets), 1, "results of " + f)
        for o in rets:
            x = View(o, PFX)
            if x.read(fl("hashmap", "_keybuf_head", S)) != C0:
                bad = (x, "key buffer not reset")
            ms = [e[2] for e in ev_calls(x, "memset")]
            if not any(e[0] == h("_entries") and e[1] in (M1, const(255)) and e[2] == scale(h("_limit"), 32) for e in ms):
                bad = (x, "table not emptied")
            if f != "set_clear" and not P(x).eq(lastw(x, ("fld", "vec.size", h("values"))), C0):
                bad = (x, "values not dropped")
            if f == "compositemap_clear" and not P(x).eq(lastw(x, ("fld", "vec.size", h("_keys"))), C0):
                bad = (x, "part locations not dropped")
        ctx.ob("%s: empty table" % f, bad is None, bad[0].where() if bad else "", bad[1] if bad else "", bad[0].trail() if bad else None)
