from .norm import *

TECHNIQUE = "path-sensitive linear-form dataflow over every array operation: capacity invariant, allocation sizes, and the ranges moved and copied"
LEVEL_NOTE = "every path of every array operation for symbolic sizes, capacities, positions and element sizes"
EXPLANATION = (
    "Every array operation is inlined and reduced to path outcomes in which sizes, capacities, element sizes and positions are symbols (a position pointer is written data + k*elem_size). "
    "Each outcome must keep size + 1 <= allocated elements, record exactly what it allocated, move and copy only inside the allocation, and move or copy the ranges its operation defines "
    "(everything behind an insertion point up by the number inserted before the new elements are copied in, everything behind an erased range down to its start). "
    "No other code writes an array's bookkeeping fields except string construction, which is held to the same invariant.")
ASSUMPTIONS = ["size + 1 <= allocated elements, element size >= 1 and positions inside the array on entry (checked on exit of every operation)",
               "sizes times element size do not exceed the address space", "the source of an insertion is not part of the array itself"]

PFX = ("vec.",)
K, N = ("arg", 9001, "k"), ("arg", 9002, "n")     # symbols standing for an element position and a count


def fl(f, b):
    return ("fld", "vec." + f, b)


class VRule(Collect):
    def __init__(self, subst, pre):
        Collect.__init__(self, None, {"all"}, 80)
        self.subst, self.pre = subst, pre

    def entry(self, an, st):
        for n, e in self.subst.items():
            st.env[an.fn.args[n][0]] = e
        for c in self.pre:
            an.assume(st, c, True)


class V:
    """what an operation did to the array S on one path"""

    def __init__(self, o, S):
        self.o = View(o, PFX)
        self.p = P(self.o)
        g = lambda n: ("ld", fl(n, S), 0)
        self.S, self.data, self.size, self.alloc, self.es = S, g("data"), g("size"), g("_alloc"), g("_elem_size")
        n = lambda f: self.last(fl(f, S))
        self.data2, self.size2, self.alloc2, self.es2 = n("data"), n("size"), n("_alloc"), n("_elem_size")
        # copies with their offset from the array's data as it is at that moment
        self.moves, self.same_es = [], []
        d, al = self.data, self.alloc
        self.room = []          # allocated elements at each move
        for e in self.o.ev:
            if e[0] == "store" and e[1] == fl("data", S):
                d, al = e[2], None
            if e[0] == "call" and e[1] in ("memcpy", "memmove", "memset"):
                self.moves.append((e[1], e[2], d))
                self.room.append(al)
        self.reallocs = ev_calls(self.o, "realloc", "malloc", "calloc", "free", "reallocarray")

    def last(self, a):
        w = [e[2] for e in self.o.ev if e[0] == "store" and e[1] == a]
        return w[-1] if w else ("ld", a, 0)

    def elems(self, e):
        """byte count -> element count"""
        if is_c(e) and e[1] == 0:
            return C0
        r = mk_div(e, self.es)
        for x in self.same_es:
            if r is None:
                r = mk_div(e, x)
        return r

    def off(self, a, d):
        """element offset of an address in the array, or None"""
        return self.elems(sub(a, d)) if a != d else C0

    # --- the invariant
    def inv(self, grown=None):
        p = self.p
        if self.o.read(fl("_elem_size", self.S)) != self.es and self.es2 != self.es:
            return "changes the element size"
        if not p.le(add(self.size2, C1), self.alloc2):
            return "size %s with %s elements allocated: no spare element" % (show(self.size2), show(self.alloc2))
        al = [e for e in self.reallocs if e[1] != "free"]
        if len(al) > 1:
            return "allocates more than once"
        if al:
            e = al[0]
            if e[1] != "realloc" or e[2][0] != self.data:
                return "does not keep the contents when allocating"
            n = self.elems(e[2][1])
            if n is None or not p.eq(n, self.alloc2):
                return "records %s elements but allocates %s bytes" % (show(self.alloc2), show(e[2][1]))
            if self.data2 != e[4]:
                return "does not use the new allocation"
            # shrinking must not cut off contents
            if not p.le(add(self.size, C1), n) and not p.le(add(self.size2, C1), n):
                return "allocates fewer elements than are stored"
        elif not p.eq(self.alloc2, self.alloc) or self.data2 != self.data:
            return "changes capacity or data without allocating"
        return True

    def inside(self, ext=()):
        """every move stays inside the allocation; sources outside the array are listed in ext as (address, elements)"""
        p = self.p
        for (k, a, d), room in zip(self.moves, self.room):
            room = self.alloc2 if room is None else room
            m = self.elems(a[2])
            if m is None:
                if a[2] == self.es:
                    m = C1
                else:
                    return "moves %s bytes" % show(a[2])
            if not p.le(C0, m):
                return "moves a count that may wrap: %s" % show(m)
            for addr in (a[0],) if k == "memset" else (a[0], a[1]):
                o = self.off(addr, d)
                if o is None:
                    if addr is a[0]:
                        return "writes at %s" % show(addr)
                    continue
                if not p.le(C0, o) or not p.le(add(o, m), room):
                    return "touches elements %s .. %s of %s" % (show(o), show(add(o, m)), show(room))
        return True

    def moved(self, frm, to, count):
        """some move takes at least count elements from index frm to index to"""
        for n, (k, a, d) in enumerate(self.moves):
            if k == "memset":
                continue
            s, t, m = self.off(a[1], d), self.off(a[0], d), self.elems(a[2])
            if s is None or t is None or m is None:
                continue
            if self.p.eq(s, frm) and self.p.eq(t, to) and self.p.le(count, m):
                if k == "memmove" or self.p.le(m, sub(frm, to)) or self.p.le(m, sub(to, frm)):
                    return n
        return None

    def copied(self, src, to, count, atleast=False):
        for n, (k, a, d) in enumerate(self.moves):
            if k == "memset" or self.off(a[0], d) is None:
                continue
            m = self.elems(a[2])
            if a[1] == src and m is not None and self.p.eq(self.off(a[0], d), to) and (self.p.eq(m, count) or atleast and self.p.le(count, m)):
                return n
        return None


def run(ctx):
    p = ctx.prog("util", keep=[])

    op = make_op(ctx, p)

    def chain(*fs):
        def t(v):
            for f in fs:
                m = f(v) if callable(f) else f
                if m is not True:
                    return m
            return True
        return t

    inv = lambda v: v.inv()
    ins = lambda v: v.inside()

    def size_is(f):
        return lambda v: v.p.eq(v.size2, f(v)) or "size becomes %s" % show(v.size2)

    def ret_is(f):
        return lambda v: v.p.eq(v.o.val, f(v)) or "returns %s" % show(v.o.val)

    def nomove(v):
        return not v.moves or "moves elements"

    def same(v):
        return (v.p.eq(v.size2, v.size) and v.p.eq(v.alloc2, v.alloc) and v.data2 == v.data and not v.reallocs) or "changes the array"

    at = lambda v, i: add(v.data2, mul(i, v.es))

    ctx.rule("C18.access", "positions are data + index * element size")
    op("vec_at", "element address", chain(same, nomove, ret_is(lambda v: at(v, v.A(1)))))
    op("vec_begin", "first element", chain(same, nomove, ret_is(lambda v: v.data)))
    op("vec_end", "one past the last element", chain(same, nomove, ret_is(lambda v: at(v, v.size))))

    def t_back(v):
        if v.o.truth(eq(v.size, C0)) is True:
            return v.p.eq(v.o.val, v.data) or "returns %s" % show(v.o.val)
        return v.p.eq(v.o.val, at(v, sub(v.size, C1))) or "returns %s" % show(v.o.val)
    op("vec_back", "last element", chain(same, nomove, t_back))

    def t_empty(v):
        return as_bool(strip(v.o.val)) == eq(v.size, C0) or v.o.truth(as_bool(strip(v.o.val))) == v.o.truth(eq(v.size, C0)) is not None or "returns %s" % show(v.o.val)
    op("vec_empty", "size is 0", chain(same, nomove, t_empty))

    ctx.rule("C18.capacity", "capacity is raised before the size passes it, leaves one spare element, and is what was allocated")
    op("vec_construct", "empty with a spare element", t_construct)
    nn = lambda i: (lambda e: [le(C0, e["A"](i))])
    op("vec_reserve", "room for n elements and one spare", chain(inv, nomove, size_is(lambda v: v.size),
       lambda v: v.p.le(add(v.A(1), C1), v.alloc2) or "leaves %s elements" % show(v.alloc2)), pre=nn(1))
    op("vec_resize", "size n", chain(inv, nomove, size_is(lambda v: v.A(1))), pre=nn(1))

    def t_zero(v):
        if v.o.truth(le(v.A(1), v.size)) is True or v.p.le(v.A(1), v.size):
            return True
        for k, a, d in v.moves:
            m, o = v.elems(a[2]), v.off(a[0], d)
            if k == "memset" and a[1] == C0 and m is not None and o is not None and v.p.le(o, v.size) and v.p.le(v.size, o) and v.p.le(sub(v.A(1), v.size), m):
                return True
        return "new elements not zeroed"
    op("vec_resize_and_zero", "size n, new elements zero", chain(inv, ins, size_is(lambda v: v.A(1)), t_zero), pre=nn(1))
    op("vec_clear", "size 0", chain(inv, nomove, size_is(lambda v: C0)))
    op("vec_shrink_to_fit", "contents kept", chain(inv, nomove, size_is(lambda v: v.size)))

    def t_pop(v):
        if v.o.truth(eq(v.size, C0)) is True:
            return v.p.eq(v.size2, C0) and v.o.val == C0 or "changes an empty array or returns %s" % show(v.o.val)
        return (v.p.eq(v.size2, sub(v.size, C1)) and v.p.eq(v.o.val, at(v, sub(v.size, C1)))) or "returns %s, size %s" % (show(v.o.val), show(v.size2))
    op("vec_pop_back", "drops and returns the last element", chain(inv, nomove, t_pop))
    op("vec_add_one", "one more element, its address returned", chain(inv, nomove, size_is(lambda v: add(v.size, C1)), ret_is(lambda v: at(v, v.size))))
    op("vec_destroy", "frees its data", lambda v: [e[2][0] for e in v.reallocs] == [v.data] or "does not release its data once")

    ctx.rule("C18.contents", "insert, erase, append and overwrite move and copy exactly the elements concerned, inside the allocation")
    op("vec_push_back", "copies the element to the end",
       chain(inv, ins, size_is(lambda v: add(v.size, C1)), lambda v: (v.copied(v.A(1), v.size, C1) == 0 and len(v.moves) == 1) or "element not copied to the end"))
    op("vec_add_one_front", "shifts all elements up by one",
       chain(inv, ins, size_is(lambda v: add(v.size, C1)), ret_is(lambda v: v.data2), lambda v: v.moved(C0, C1, v.size) is not None or "elements not moved up"))

    def only_copy(src, to, n):
        return lambda v: (len(v.moves) == 1 and v.copied(src(v), to(v), n(v)) == 0 and not v.reallocs) or "does not copy exactly the elements given: %s" % [[show(x) for x in m[1][:3]] for m in v.moves]
    pos = lambda i: (lambda e: {i: add(e["data"], mul(K, e["es"]))})
    inpos = lambda e: [le(C0, K), le(K, e["size"])]
    op("vec_set_one", "overwrites one element", chain(only_copy(lambda v: v.A(2), lambda v: K, lambda v: C1)), subst=pos(1), pre=inpos)
    op("vec_set_at", "overwrites len elements", chain(only_copy(lambda v: v.A(2), lambda v: v.A(1), lambda v: v.A(3))))
    op("vec_set", "overwrites len elements", chain(only_copy(lambda v: v.A(2), lambda v: K, lambda v: v.A(3))), subst=pos(1), pre=inpos)
    rng = lambda e: {**pos(1)(e), 3: add(e["A"](2), mul(sub(N, C1), e["es"]))}
    op("vec_set_iter", "overwrites as many elements as given", only_copy(lambda v: v.A(2), lambda v: K, lambda v: N), subst=rng, pre=lambda e: inpos(e) + [le(C1, N)])

    def t_insert(k, src, n):
        def t(v):
            k_, n_ = k(v), n(v)
            if v.p.eq(n_, C0):
                return same(v) if not v.moves else "moves elements"
            if not v.p.eq(v.size2, add(v.size, n_)):
                return "size becomes %s" % show(v.size2)
            a = v.moved(k_, add(k_, n_), sub(v.size, k_))
            b = v.copied(src(v), k_, n_)
            if a is None:
                return "elements behind the insertion point not moved up"
            if b is None:
                return "inserted elements not copied to their place"
            return a < b and len(v.moves) == 2 or "copies before making room"
        return t
    op("vec_insert_iter", "inserts a range", chain(inv, ins, t_insert(lambda v: K, lambda v: v.A(2), lambda v: N)), subst=rng, pre=lambda e: inpos(e) + [le(C1, N)])
    op("vec_insert_one", "inserts one element", chain(inv, ins, t_insert(lambda v: K, lambda v: v.A(2), lambda v: C1)), subst=pos(1), pre=inpos)
    op("vec_insert_at", "inserts len elements", chain(inv, ins, t_insert(lambda v: v.A(1), lambda v: v.A(2), lambda v: v.A(3))),
       pre=lambda e: [le(C0, e["A"](1)), le(e["A"](1), e["size"]), le(C0, e["A"](3))], least=2)
    op("vec_insert", "inserts len elements", chain(inv, ins, t_insert(lambda v: K, lambda v: v.A(2), lambda v: v.A(3))), subst=pos(1),
       pre=lambda e: inpos(e) + [le(C0, e["A"](3))], least=2)

    def t_erase(k, n):
        def t(v):
            k_, n_ = k(v), n(v)
            if v.p.eq(n_, C0):
                return same(v) if not v.moves else "moves elements"
            if not v.p.eq(v.size2, sub(v.size, n_)):
                return "size becomes %s" % show(v.size2)
            if v.moved(add(k_, n_), k_, sub(sub(v.size, k_), n_)) is None and not (not v.moves and v.p.eq(add(k_, n_), v.size)):
                return "elements behind the erased range not moved down"
            return len(v.moves) <= 1 or "moves more than once"
        return t
    both = lambda e: {1: add(e["data"], mul(K, e["es"])), 2: add(e["data"], mul(sub(add(K, N), C1), e["es"]))}
    op("vec_erase_iter", "erases a range", chain(inv, ins, t_erase(lambda v: K, lambda v: N)), subst=both, pre=lambda e: [le(C0, K), le(C1, N), le(add(K, N), e["size"])])
    op("vec_erase_one", "erases one element", chain(inv, ins, t_erase(lambda v: K, lambda v: C1)), subst=pos(1), pre=lambda e: [le(C0, K), le(add(K, C1), e["size"])])
    op("vec_erase_at", "erases len elements", chain(inv, ins, t_erase(lambda v: v.A(1), lambda v: v.A(2))),
       pre=lambda e: [le(C0, e["A"](1)), le(C0, e["A"](2)), le(add(e["A"](1), e["A"](2)), e["size"])], least=2)
    op("vec_erase", "erases len elements", chain(inv, ins, t_erase(lambda v: K, lambda v: v.A(2))), subst=pos(1),
       pre=lambda e: [le(C0, K), le(C0, e["A"](2)), le(add(K, e["A"](2)), e["size"])], least=2)

    def t_append(src, n, spare):
        def t(v):
            if not v.p.eq(v.size2, add(v.size, n(v))):
                return "size becomes %s" % show(v.size2)
            s = src(v)
            if not v.moves and v.p.eq(n(v), C0):
                return True
            if v.copied(s, v.size, n(v), False) is None and not (spare and v.copied(s, v.size, add(n(v), C1)) is not None):
                return "elements not copied to the end"
            return len(v.moves) == 1 or "moves more than once"
        return t
    op("vec_append", "copies n elements to the end", chain(inv, ins, t_append(lambda v: v.A(1), lambda v: v.A(2), False)), pre=nn(2))
    # the destination and source are different arrays with elements of one size
    src = lambda e, f: ("ld", fl(f, e["A"](1)), 0)
    op("vec_extend", "copies the other array's elements to the end",
       chain(lambda v: v.same_es.append(("ld", fl("_elem_size", v.A(1)), 0)) or True, inv, ins, t_append(lambda v: ("ld", fl("data", v.A(1)), 0), lambda v: ("ld", fl("size", v.A(1)), 0), True)),
       pre=lambda e: [le(C0, src(e, "size")), eq(src(e, "_elem_size"), e["es"])])

    def t_sort(v):
        c = ev_calls(v.o, "qsort_r")
        return (len(c) == 1 and c[0][2][:5] == (v.data, v.size, v.es, v.A(1), v.A(2)) and same(v) is True) or "does not sort exactly its elements"
    op("vec_sort_r", "sorts exactly its elements", t_sort)

    ctx.rule("C18.bits", "a bit is the one of its index and its word lies inside the allocation")
    bits(ctx, p, op, chain)
    flexes(ctx)
    owners(ctx)


def make_op(ctx, p, mk=None):
    mk = mk or V

    def op(f, what, test, subst=None, pre=None, si=0, least=1):
        fn = p.fn(f)
        A = lambda i: ("arg", fn.args[i][0], fn.args[i][1] or (fn.names.get(fn.args[i][0]) or [""])[0])
        S = A(si)
        g = lambda n: ("ld", fl(n, S), 0)
        data, size, alloc, es = g("data"), g("size"), g("_alloc"), g("_elem_size")
        base = [le(C0, size), le(add(size, C1), alloc), le(C1, es), le(C1, alloc)]
        env = dict(data=data, size=size, alloc=alloc, es=es, A=A)
        sb = subst(env) if subst else {}
        pr = base + (pre(env) if pre else [])
        r = VRule(sb, pr)
        ctx.analyse(p, fn, r)
        vs = [mk(o, S) for o in r.outs if not o.died]
        vs = [v for v in vs if not v.o.infeasible and not v.p.contra()]
        bad = None
        for v in vs:
            v.A = A
            m = test(v)
            if m is not True:
                bad = (v, m)
                break
        if bad is None:
            ctx.need(len(vs), least, "paths of " + f)
        ctx.ob("%s: %s (%d paths)" % (f, what, len(vs)), bad is None, bad[0].o.where() if bad else "", (bad[1] or "does not hold") if bad else "", bad[0].o.trail() if bad else None)

    return op


def t_construct(v):
    al = [e for e in v.reallocs]
    n = v.last(fl("_alloc", v.S))
    es = v.last(fl("_elem_size", v.S))
    n, es = v.o.read(fl("_alloc", v.S)), v.o.read(fl("_elem_size", v.S))
    if v.o.read(fl("size", v.S)) != C0:
        return "not empty"
    if strip(es) != v.A(1):
        return "element size %s" % show(es)
    if not is_c(n) or n[1] < 1:
        return "%s elements" % show(n)
    if len(al) != 1 or al[0][1] != "malloc" or al[0][2][0] != mul(n, es) or v.o.read(fl("data", v.S)) != al[0][4]:
        return "allocation is not %s elements" % show(n)
    return True


def bits(ctx, p, op, chain):
    W = const(32)

    def idx_ok(v, a, i):
        """a == data + 4*(i/32)"""
        o = sub(a, v.data2)
        c, d = lin_parts(o)
        if c:
            return False
        if len(d) != 1:
            return False
        t, k = next(iter(d.items()))
        if t[0] == "op" and t[1] == "mul" and k == 1 and v.es in t[2:] and len(t) == 4:
            t = t[2] if t[3] == v.es else t[3]
            k = 4
        return k == 4 and (t == div(i, W) or t == ("op", "shr", i, const(5)) or t[0] == "op" and t[1] in ("lshr", "shr") and t[2] == i and t[3] == const(5))

    def bit_of(e, i):
        e = strip(e)
        return e == ("op", "rem", i, W) or e[0] == "op" and e[1] == "and" and const(31) in e[2:] and i in [strip(x) for x in e[2:]] or \
            e[0] == "op" and e[1] == "rem" and strip(e[2]) == i and e[3] == W or e[0] == "op" and e[1] in ("and", "zext", "trunc32") and any(isinstance(x, tuple) and bit_of(x, i) for x in e[2:] if isinstance(x, tuple) and x[0] == "op")
    es4 = lambda e: [eq(e["es"], const(4)), le(C0, e["A"](1))]

    def t_at(v):
        i = v.A(1)
        lds = [y for y in walk(v.o.val) if y[0] == "ld" and idx_ok(v, y[1], i)]
        if not lds:
            return "returns %s" % show(v.o.val)
        sh = [y for y in walk(v.o.val) if y[0] == "op" and y[1] in ("shr", "lshr", "ashr", "shl") and bit_of(y[3], i)]
        return bool(sh) or "returns %s" % show(v.o.val)
    op("bitvec_at", "bit index % 32 of word index / 32", t_at, pre=es4)

    def t_set(v):
        i, on = v.A(1), as_bool(v.A(2))
        st = [e for e in v.o.ev if e[0] == "store"]
        if len(st) != 1 or not idx_ok(v, st[0][1], i):
            return "does not store exactly the word of the bit"
        val = st[0][2]
        sh = [y for y in walk(val) if y[0] == "op" and y[1] == "shl" and y[2] == C1 and bit_of(y[3], i)]
        if not sh:
            # 1 << x may be a linear power form
            sh = [y for y in walk(val) if y[0] == "op" and y[1] == "shl" and bit_of(y[3], i)]
        if not sh or not mentions(val, lambda y: y[0] == "ld" and y[1] == st[0][1]):
            return "stores %s" % show(val)
        t = v.o.truth(on)
        kind = val[1] if val[0] == "op" else None
        if t is True:
            return kind == "or" or "sets with %s" % show(val)
        if t is False:
            return kind == "and" or "clears with %s" % show(val)
        return "does not distinguish setting from clearing"
    op("bitvec_set", "bit index % 32 of word index / 32", t_set, pre=es4, least=2)

    words = lambda n: add(div(n, W), C1)

    def t_cap(size):
        def t(v):
            if not v.p.eq(v.size2, size(v)):
                return "size becomes %s" % show(v.size2)
            if not v.p.le(words(v.size2), v.alloc2):
                return "%s bits with %s words allocated" % (show(v.size2), show(v.alloc2))
            al = v.reallocs
            if al:
                k = v.elems(al[0][2][1])
                if len(al) > 1 or k is None or not v.p.eq(k, v.alloc2) or al[0][2][0] != v.data or v.data2 != al[0][4]:
                    return "records %s words but allocates %s bytes" % (show(v.alloc2), show(al[0][2][1]))
            elif v.alloc2 != v.alloc or v.data2 != v.data:
                return "changes capacity without allocating"
            return v.inside()
        return t
    pre = lambda e: [eq(e["es"], const(4)), le(words(e["size"]), e["alloc"]), le(C0, e["A"](1))]
    op("bitvec_push_back", "one more bit inside the allocation", t_cap(lambda v: add(v.size, C1)), pre=pre)
    op("bitvec_resize", "size bits inside the allocation", t_cap(lambda v: v.A(1)), pre=pre)


class PairRule(Collect):
    """collects, with every call that stores a pair, the pair's fields at that moment"""

    def __init__(self):
        Collect.__init__(self, None, {"all"}, 80)
        self.cap = 400

    def call(self, an, st, inst, name, args):
        if name in ("vec_push_back", "vec_insert_at"):
            a = args[1] if name == "vec_push_back" else args[2]
            got = {x[1].split(".")[-1]: v for x, v in st.mem.items() if x[0] == "fld" and x[2] == a}
            self._ev(st, ("pair", got.get("idx"), got.get("len"), args))


VEC_KEEP = ["vec_push_back", "vec_append", "vec_resize", "vec_insert_at", "vec_erase_at", "vec_pop_back", "vec_clear", "vec_reserve",
            "vec_construct", "vec_destroy", "vec_shrink_to_fit"]


def flexes(ctx):
    ctx.rule("C18.flex", "an item of a packed list is recorded with the place and length its bytes are stored at, and only its bytes are dropped with it")
    p = ctx.prog("util", keep=VEC_KEEP)

    def outs(f):
        r = PairRule()
        an = ctx.analyse(p, p.fn(f), r)
        vs = []
        for o in r.outs:
            if not o.died:
                own = {e[1][1].rsplit(".", 1)[0] + "." for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][2][0] == "al"}
                vs.append(View(o, PFX + tuple(own)))
        return vs, an

    def vec_fields(an, st):
        s = arg(an, 0)
        return ("fld", "flex._raw", s), ("fld", "flex._pairs", s)

    def num(e):
        return strip(e)

    def store_item(f, textual, where=None):
        os_, an = outs(f)
        ctx.need(len(os_), 1, "paths of " + f)
        raw, prs = vec_fields(an, None)
        size = ("ld", fl("size", raw), 0)
        msg = None
        for o in os_:
            p_ = P(o)
            pe = [e for e in o.ev if e[0] == "pair"]
            put = ev_calls(o, "vec_push_back", "vec_insert_at")
            if len(put) != 1 or put[0][2][0] != prs or where and (put[0][2][1] != arg(an, 1) or put[0][2][3] != C1):
                msg = "item not recorded once"
                break
            ln = pe[0][2]
            idx = next(e for e in o.raw.ev if e[0] == "pair")[1]       # the size before anything was stored
            if idx is None or ln is None or not p_.eq(idx, size):
                msg = "item recorded at %s, its bytes are stored at the end" % (show(idx) if idx else "nowhere")
                break
            if not textual:
                ap = ev_calls(o, "vec_append")
                if len(ap) != 1 or ap[0][2][0] != raw or ap[0][2][1] != arg(an, 2 if where else 1) or num(ap[0][2][2]) != num(ln) or num(ln) != arg(an, 3 if where else 2):
                    msg = "stores %s bytes, records %s" % (show(ap[0][2][2]) if ap else "no", show(ln))
            else:
                sp = ev_calls(o, "snprintf")
                rs = [e for e in ev_calls(o, "vec_resize") if e[2][0] == raw]
                if len(sp) != 2 or len(rs) != 1 or sp[0][2][:2] != (C0, C0) or sp[0][2][2:] != sp[1][2][2:]:
                    msg = "length is not that of the text stored"
                    break
                n = num(sp[0][4])
                if num(ln) != n:
                    msg = "records %s bytes" % show(ln)
                    break
                # later reads of the pair give what was recorded
                fix = {x: v for x, v in ((("ld", x, 0), v) for x, v in [(e[1], e[2]) for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][2][0] == "al"])}
                sb = lambda e: num(replace(e, fix))
                if not p_.eq(sb(rs[0][2][1]), add(size, n)) or not p_.eq(sb(sp[1][2][1]), add(n, C1)):
                    msg = "room for %s, text limited to %s" % (show(rs[0][2][1]), show(sp[1][2][1]))
                    break
                dst = sb(sp[1][2][0])
                old = ("ld", fl("data", raw), 0)
                if mentions([e for e in o.raw.ev if e[0] == "call" and e[1] == "snprintf"][1][2][0], lambda y: y == old):
                    msg = "text stored in the array as it was before it was resized"
                if dst not in (add(("ld", fl("data", raw), 0), mul(size, ("ld", fl("_elem_size", raw), 0))), add(("ld", fl("data", raw), 0), size)):
                    msg = "text stored at %s" % show(dst)
                    break
            if msg:
                break
        ctx.ob("%s: item recorded where it is stored" % f, msg is None, os_[0].where(), msg or "")
    store_item("flex_push_back", False)
    store_item("flex_insert", False, True)
    store_item("flex_push_back_str_int", True)
    store_item("flex_push_back_str_float", True)

    # dropping the last item drops its bytes only when they are the last ones
    os_, an = outs("flex_pop_back")
    raw, prs = vec_fields(an, None)
    size = ("ld", fl("size", raw), 0)
    msg = None
    for o in os_:
        rs = ev_calls(o, "vec_resize")
        if len([e for e in ev_calls(o, "vec_pop_back") if e[2][0] == prs]) != 1:
            msg = "does not drop exactly one item"
        for e in rs:
            idx = e[2][1]
            if e[2][0] != raw or idx[0] != "ld" or idx[1][0] != "fld" or not idx[1][1].endswith(".idx"):
                msg = "shortens to %s" % show(idx)
                continue
            ln = ("ld", ("fld", idx[1][1].rsplit(".", 1)[0] + ".len", idx[1][2]), 0)
            if not any(P(o).eq(add(idx, l), size) for l in (ln, ("op", "zext", ln))):
                msg = "bytes of another item may be dropped"
    ctx.need(len(os_), 2, "paths of flex_pop_back")
    ctx.ob("flex_pop_back: only the item's own bytes are dropped", msg is None, os_[0].where(), msg or "")

    # look-up
    at = lambda an, i: add(("ld", fl("data", vec_fields(an, None)[1]), 0), mul(i, ("ld", fl("_elem_size", vec_fields(an, None)[1]), 0)))

    def place(an, i, e):
        raw = vec_fields(an, None)[0]
        d, es = ("ld", fl("data", raw), 0), ("ld", fl("_elem_size", raw), 0)
        for y in walk(e):
            if y[0] == "ld" and y[1][0] == "fld" and y[1][1].endswith(".idx") and y[1][2] == at(an, i):
                return e in (add(d, mul(y, es)), add(d, y))
        return False
    for f in ("flex_at", "flex_pair_at"):
        os_, an = outs(f)
        ok = bool(os_)
        for o in os_:
            if f == "flex_at":
                ok = ok and place(an, arg(an, 1), o.val)
            else:
                st = {e[1][1].split(".")[-1]: e[2] for e in o.ev if e[0] == "store" and e[1][0] == "fld"}
                ln = strip(st.get("len", C0))
                ok = ok and place(an, arg(an, 1), st.get("data", C0)) and ln[0] == "ld" and ln[1][1].endswith(".len") and ln[1][2] == at(an, arg(an, 1))
        ctx.ob("%s: the item's recorded place and length" % f, ok, os_[0].where(), "does not return the item at its recorded place")


def replace(e, m):
    if e in m:
        return m[e]
    k = e[0]
    if k == "L":
        r = const(e[1])
        for a, c in e[2]:
            r = add(r, scale(replace(a, m), c))
        return r
    if k == "op" and e[1] == "mul":
        return mulall(replace(x, m) for x in e[2:])
    return tuple(replace(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)


def owners(ctx):
    """bookkeeping fields of arrays are written by array and string code only"""
    ctx.rule("C18.owner", "only the array and string implementations write size, capacity, element size and data of an array")
    p = ctx.prog("engine", keep=[], inline=False)
    n = 0
    for f in sorted(p.names(None)):
        fn = p.fn(f)
        rel = fn.relfile()
        for i in fn.insts():
            if i.op != "store":
                continue
            cls = static_class(p, fn, i.a[1])
            if cls and cls.startswith("vec."):
                n += 1
                ctx.functions.add(f)
                if not rel.startswith("util/vec.c") and not rel.startswith("util/stringy.c"):
                    ctx.ob("%s writes %s" % (f, cls), False, fn.loc(i), "array bookkeeping written outside the array implementation")
    ctx.need(n, 8, "stores to array bookkeeping")
    ctx.ob("stores to array bookkeeping (%d)" % n, True)


def static_class(p, fn, o):
    for _ in range(6):
        d = fn.defs.get(o) if isinstance(o, int) else None
        if d is None:
            return None
        n = d.callee_name()
        if n and n.startswith("fld:"):
            return n[4:]
        if d.op != "bitcast":
            return None
        o = d.a[0]
