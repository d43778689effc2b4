"""Spec functions of canonical ordering and canonical composition.

Sorted(X, n): F is X[0..n) with every maximal run of elements of non-zero
combining class replaced by its stable sort by class.  Z counts the elements
of class zero before a position: [s, e) has none iff Z(s) = Z(e).

Comp(Y, n): the Unicode composition algorithm as a machine over Y; after k
elements the result is O(k)[0 .. L(k)), S(k) is the index of the last starter
in it (-1: none) and C(k) the class of its last element that was not merged.
"""
import re
import z3
from symex import *
from texts import *
import cont
from cont import INT, B32
from p_props import CCC
from upper import HASCMP, COMPF

_n = [0]


def ccc0(c):
    return CCC(c) == 0


class Sorted:
    def __init__(self, ex, X, n):
        _n[0] += 1
        self.X, self.n = X, zint(n)
        self.F = z3.Const("sorted!%d" % _n[0], ARR)
        self.Z = z3.Function("zeros!%d" % _n[0], INT, INT)
        self.keep = []
        self.terms = {}
        self.scalar = None
        ex.sorts.append(self)

    def facts(self, i):
        """definition of Z at i; elements of class zero, and runs of one element, stay"""
        i = zint(i)
        x = z3.Select(self.X, i)
        ok = z3.And(i >= 0, i < self.n)
        return [z3.Implies(ok, self.Z(z3.simplify(i + 1)) == self.Z(i) + z3.If(ccc0(x), 1, 0)),
                z3.Implies(z3.And(ok, z3.Or(ccc0(x), z3.And(self.starts(i), z3.Or(z3.simplify(i + 1) == self.n, ccc0(z3.Select(self.X, z3.simplify(i + 1))))))),
                           z3.Select(self.F, i) == x)]

    def run(self, s, e):
        """[s, e) is a maximal run, or empty"""
        s, e = zint(s), zint(e)
        return z3.Or(s == e, z3.And(s <= e, self.Z(s) == self.Z(e), self.starts(s),
                                    z3.Or(e == self.n, ccc0(z3.Select(self.X, e)))))

    def starts(self, s):
        return z3.Or(s == 0, ccc0(z3.Select(self.X, z3.simplify(s - 1))))

    def mono(self, a, b):
        """a count of elements grows by 0 or 1 at each (lemma)"""
        return z3.Implies(z3.And(0 <= a, a <= b, b <= self.n), z3.And(self.Z(a) <= self.Z(b), self.Z(b) - self.Z(a) <= b - a))

    def hook(self, ex, st, i):
        key = ("sorted", id(self))
        seen = st.ghost.get(key, frozenset())
        i = z3.simplify(zint(i))
        for j in (i, z3.simplify(i - 1)):
            self.keep.append(j)
            if j.get_id() not in seen:
                if ex.strong:
                    j1 = z3.simplify(j + 1)
                    for p in [self.terms[t] for t in sorted(seen)]:
                        st.pc += [self.mono(p, j), self.mono(j1, p), self.mono(z3.simplify(p + 1), j), self.mono(j, p)]
                    self.terms[j.get_id()] = j
                seen = seen | {j.get_id()}
                st.pc += self.facts(j)
                if self.is_scalar(ex):
                    st.pc.append(z3.Implies(z3.And(j >= 0, j < self.n), z3.And(scalar(z3.Select(self.F, j)), scalar(z3.Select(self.X, j)))))
        st.ghost[key] = seen

    def is_scalar(self, ex):
        if self.scalar is None:
            self.scalar = any(self.X.eq(a) for a in ex.scalar_arrays) or any(self.X.eq(t.T) for t in ex.texts)
        return self.scalar


def sorted_of(ex, X, n):
    for s in ex.sorts:
        if s.X.eq(X):
            return s
    return Sorted(ex, X, n)


class Comp:
    def __init__(self, ex, Y, n):
        _n[0] += 1
        k = _n[0]
        self.Y, self.n = Y, zint(n)
        self.O = z3.Function("composed!%d" % k, INT, ARR)
        self.L = z3.Function("length!%d" % k, INT, INT)
        self.S = z3.Function("starter!%d" % k, INT, INT)
        self.C = z3.Function("class!%d" % k, INT, B32)
        self.keep = []
        self.scalar = False
        ex.comps.append(self)

    def base(self):
        return [self.L(0) == 0, self.S(0) == -1, self.C(0) == 0]

    def merges(self, k):
        y = z3.Select(self.Y, k)
        return z3.And(self.S(k) >= 0, z3.Or(self.L(k) == self.S(k) + 1, self.C(k) < CCC(y)), HASCMP(z3.Select(self.O(k), self.S(k)), y))

    def facts(self, k):
        k = zint(k)
        k1 = z3.simplify(k + 1)
        y = z3.Select(self.Y, k)
        O, L, S, C = self.O, self.L, self.S, self.C
        m = self.merges(k)
        return [z3.Implies(z3.And(k >= 0, k < self.n), z3.And(
            O(k1) == z3.If(m, z3.Store(O(k), S(k), COMPF(z3.Select(O(k), S(k)), y)), z3.Store(O(k), L(k), y)),
            L(k1) == z3.If(m, L(k), L(k) + 1),
            S(k1) == z3.If(m, S(k), z3.If(ccc0(y), L(k), S(k))),
            C(k1) == z3.If(m, C(k), CCC(y))))]

    def hook(self, ex, st, i):
        key = ("comp", id(self))
        seen = st.ghost.get(key, frozenset())
        i = z3.simplify(zint(i))
        self.keep.append(i)
        if i.get_id() not in seen:
            st.ghost[key] = seen | {i.get_id()}
            st.pc += self.facts(i)
            if self.scalar:
                # every element is scalar (lemma, discharged in C22)
                st.pc.append(z3.Implies(z3.And(i >= 0, i < self.L(self.n)), scalar(z3.Select(self.O(self.n), i))))


# -- templates and candidates ---------------------------------------------
def sort_templates(ex, st, entry, kinds, loc):
    out = []
    a0 = entry[loc][0]
    if a0.sort().range() != B32:
        return out
    j = z3.Int("j!sorted")
    for so in ex.sorts:
        for l, k in kinds.items():
            if k[0] == "idx" and k[1] == loc[1] and isinstance(entry.get(l), Ptr):
                def f(vals, s, l=l, so=so):
                    v = vals.get(l)
                    if not isinstance(v, Ptr):
                        return None
                    return z3.Lambda([j], z3.If(z3.And(0 <= j, j < zint(v.off)), z3.Select(so.F, j), z3.Select(a0, j)))
                out.append(("ordered up to the index", f))
    return out


def comp_templates(ex, st, entry, kinds, loc):
    out = []
    a0 = entry[loc][0]
    if a0.sort().range() != B32:
        return out
    j = z3.Int("j!composed")
    idx = [l for l, k in kinds.items() if k[0] == "idx" and k[1] == loc[1] and isinstance(entry.get(l), Ptr)]
    for co in ex.comps:
        for li in idx:
            for lo in idx:
                if li == lo:
                    continue

                def both(vals, li=li, lo=lo):
                    a, b = vals.get(li), vals.get(lo)
                    return (zint(a.off), zint(b.off)) if isinstance(a, Ptr) and isinstance(b, Ptr) else None

                def f(vals, s, co=co, both=both):
                    p = both(vals)
                    if p is None:
                        return None
                    g = z3.Const(ex.fresh("overwritten"), ARR)
                    return z3.Lambda([j], z3.If(j < p[1], z3.Select(co.O(p[0]), j), z3.If(j < p[0], z3.Select(g, j), z3.Select(a0, j))))

                def care(vals, k, both=both):
                    i, o = both(vals)
                    return z3.And(k >= 0, z3.Or(k < o, k >= i))
                out.append(("composed up to the output index, untouched from the input index", f, care))
    return out


def cands(ex, st, entry, kinds, ptrs, cnts, bvs, arrs, rope_choice):
    out = []

    def off(vals, l):
        v = vals.get(l)
        return zint(cont.pos(v)) if isinstance(v, Ptr) else None

    def add(label, fn, *ls):
        def f(vals, s):
            xs = [off(vals, l) for l in ls]
            return None if any(x is None for x in xs) else fn(*xs)
        out.append((label, f))
    ap = [l for l, k in ptrs if k[0] == "idx" and ex.objs[k[1]].esz == 4]
    for so in ex.sorts:
        for l in ap:
            add("a run starts at the index, or it is the end", lambda x, so=so: z3.Or(so.starts(x), x == so.n), l)
            add("no run is cut at the index", lambda x, so=so: z3.Or(so.starts(x), x == so.n, ccc0(z3.Select(so.X, x))), l)
            add("the element at the index is not of class zero", lambda x, so=so: z3.Not(ccc0(z3.Select(so.X, x))), l)
            for v in entry.values():
                if isinstance(v, Ptr) and ex.objs[v.obj].kind == "arr" and ex.objs[v.obj].esz == 4 and not isint(v.off):
                    add("no element of class zero since", lambda x, so=so, t=v.off: so.Z(x) == so.Z(t), l)
            e0 = entry.get(l)
            if isinstance(e0, Ptr):
                add("no element of class zero since the start", lambda x, so=so, t=zint(e0.off): so.Z(x) == so.Z(t), l)
            if isinstance(e0, Ptr) and ex.strong:
                add("only elements of class zero since the start", lambda x, so=so, t=zint(e0.off): so.Z(x) - so.Z(t) == x - t, l)
            for l2 in ap:
                if l2 != l:
                    add("no element of class zero between", lambda x, y, so=so: so.Z(x) == so.Z(y), l, l2)
    for co in ex.comps:
        for l in ap:
            add("length of the result is in range", lambda x, co=co: z3.And(0 <= co.L(x), co.L(x) <= x), l)
            add("starter is in the result", lambda x, co=co: z3.And(-1 <= co.S(x), co.S(x) < co.L(x)), l)
            for l2 in ap:
                if l2 == l:
                    continue
                add("output index is the length of the result", lambda x, y, co=co: co.L(x) == y, l, l2)
                add("index of the last starter", lambda x, y, co=co: co.S(x) == y, l, l2)
                add("index of the last starter, if any", lambda x, y, co=co: z3.Implies(co.S(x) >= 0, co.S(x) == y), l, l2)
                add("no starter is represented by the end", lambda x, y, co=co: z3.Implies(co.S(x) < 0, y == co.n), l, l2)
                add("no starter is represented by the start", lambda x, y, co=co: z3.Implies(co.S(x) < 0, y == 0), l, l2)
            for b, k in bvs:
                def f(vals, s, b=b, l=l, co=co):
                    v, x = vals.get(b), off(vals, l)
                    if not isinstance(v, BV) or x is None:
                        return None
                    if v.w == 32:
                        return zbv(v) == co.C(x)
                    if v.w == 8:
                        return z3.And(z3.ULE(zbv(v), 1), (zbv(v) == 1) == (co.S(x) >= 0))
                    return None
                out.append(("class of the last element kept / whether there is a starter", f))
            for c, k in cnts:
                c0 = cont.cval(entry.get(c))
                if c0 is None:
                    continue

                def f(vals, s, c=c, c0=c0, l=l, co=co):
                    v, x = cont.cval(vals.get(c)), off(vals, l)
                    return None if v is None or x is None else v - c0 == x - co.L(x)
                out.append(("counter counts the merged elements", f))

                def f(vals, s, c=c, c0=c0, l=l, co=co):
                    v, x = cont.cval(vals.get(c)), off(vals, l)
                    return None if v is None or x is None else v == co.L(x)
                out.append(("counter counts the elements kept", f))
    return out


# -- std::stable_sort --------------------------------------------------------
RX_SORT = re.compile(r"^void std::stable_sort<")


def base_of(ex, st, o):
    """the original content of the sequence an object shows"""
    for cid, c in st.mem.items():
        if ex.objs[cid].kind == "cont" and c[0].view == o.id and c[0].arr0 is not None:
            return c[0].arr0, c[0].n
    if o.id in ex.orig:
        return ex.orig[o.id]
    return st.mem[o.id]


def comparator(ex, f, args):
    if len(args) == 3 and isinstance(args[2], FnP):
        return args[2].fn, []
    # a class without members: its call operator
    d = f.dem
    for fn in ex.mod.fns.values() if hasattr(ex.mod, "fns") else []:
        m = re.match(r"(.*)::operator\(\)\(int, int\)( const)?$", fn.dem)
        if m and not fn.decl and m.group(1) in d:
            return fn, [NULL]
    return None, None


def stable_sort(ex, st, f, args, x):
    if not RX_SORT.match(f.dem) or len(args) < 2:
        return None
    a, b = args[0], args[1]
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.obj != b.obj or ex.objs[a.obj].kind != "arr" or ex.objs[a.obj].esz != 4:
        raise Unsupported("std::stable_sort on another kind of range")
    ex.trusted.add("std::stable_sort: the range becomes its stable sort by the given strict weak order, nothing else changes")
    o = ex.objs[a.obj]
    if o.id not in st.mem:
        ex.fail(st, "memory: sorting a sequence whose lifetime has ended", x)
        return []
    A, n = st.mem[o.id]
    s, e = zint(a.off), zint(b.off)
    if not ex.oblige(st, z3.simplify(z3.And(0 <= s, s <= e, e <= zint(n))), "memory: the sorted range is inside %s" % o.name, x):
        return []
    fn, pre = comparator(ex, f, args)
    ok = False
    if fn is not None:
        p, q = z3.BitVecs("x y", 32)
        st2 = St()
        for s2, v in ex.exec_fn(st2, fn, pre + [BV(32, p), BV(32, q)], 1):
            ok = ex.prove(s2, zbool(ex.as_bv(v)) == (CCC(p) < CCC(q)) if isinstance(v, BV) and v.w == 1 else False,
                          "the ordering compares combining classes", ex.loc(x))
    if fn is None:
        ex.fail(st, "the ordering compares combining classes", x)
    X, m = base_of(ex, st, o)
    so = sorted_of(ex, X, m)
    for t in (s, e):
        so.hook(ex, st, t)
    j = z3.Int("j!sort")
    k = z3.Int(ex.fresh("k"))
    lo = None
    if ex.valid(st, so.run(s, e)):
        lo = s
    elif ex.valid(st, z3.And(s < e, ccc0(z3.Select(X, s)), so.run(z3.simplify(s + 1), e))):
        lo = z3.simplify(s + 1)
    if lo is not None and ex.valid(st, z3.Implies(z3.And(lo <= k, k < e), z3.simplify(z3.Select(A, k)) == z3.Select(X, k))):
        new = z3.Lambda([j], z3.If(z3.And(lo <= j, j < e), z3.Select(so.F, j), z3.Select(A, j)))
    elif ex.valid(st, e - s <= 1):
        new = A
    else:
        g = z3.Const(ex.fresh("sorted"), ARR)
        new = z3.Lambda([j], z3.If(z3.And(s <= j, j < e), z3.Select(g, j), z3.Select(A, j)))
    st.mem[o.id] = (new, n)
    return [(st, None)]


# -- contracts of the callees of the normalization forms ----------------------
RX_ORDERING = re.compile(r"^void u5e::canonical_ordering<")
RX_COMPOSITION = re.compile(r"^[^(]*::iterator u5e::canonical_composition<.*&, int\*\)$")
RX_DEC = re.compile(r"^int u5e::(canonical_decomposition|compatibility_and_canonical_decomposition)<u5e::basic_encodedstring<u5e::utf32ne, std::__cxx11::basic_string<int,.*>\(u5e::codepoint, [^,]*basic_encodedstring<.*&\)$")


def ordering_contract(ex, st, f, args, x):
    """canonical_ordering(begin, end) of a whole sequence (discharged in C19 and in every check that uses it)"""
    if not RX_ORDERING.match(f.dem) or len(args) != 2:
        return None
    a, b = args
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.obj != b.obj:
        return None
    o = ex.objs[a.obj]
    if o.kind != "arr" or o.esz != 4 or o.id not in st.mem:
        return None
    A, n = st.mem[o.id]
    X, m = base_of(ex, st, o)
    if not A.eq(X) or not ex.valid(st, z3.And(zint(a.off) == 0, zint(b.off) == zint(n), zint(m) == zint(n))):
        return None
    ex.used_contracts.add("canonical_ordering: every maximal run of elements of non-zero class is stably sorted, the rest stays (C19; discharged here as well)")
    so = sorted_of(ex, X, m)
    j = z3.Int("j!sort")
    st.mem[o.id] = (z3.Lambda([j], z3.If(z3.And(0 <= j, j < zint(n)), z3.Select(so.F, j), z3.Select(A, j))), n)
    return [(st, None)]


def composition_contract(ex, st, f, args, x):
    """canonical_composition(data, &count) (discharged in C20 and in every check that uses it)"""
    if not RX_COMPOSITION.match(f.dem) or len(args) != 2:
        return None
    p, q = args
    if not isinstance(p, Ptr) or not isinstance(q, Ptr) or q.obj not in st.mem or ex.objs[q.obj].kind != "cells":
        return None
    cid = cont.cont_at(ex, st, p)
    c = st.mem[q.obj].get(q.off)
    if cid is None or c is None or c[0] != 4 or not isinstance(c[1], (BV, IT)):
        return None
    v, b, e = cont.view(ex, st, cid)
    if v.kind != "arr" or v.esz != 4:
        return None
    A, n = st.mem[v.id]
    k = z3.Int(ex.fresh("k"))
    for co in ex.comps:
        if ex.valid(st, z3.And(zint(n) == co.n, z3.Implies(z3.And(0 <= k, k < zint(n)), z3.simplify(z3.Select(A, k)) == z3.Select(co.Y, k)))):
            break
    else:
        return None
    ex.used_contracts.add("canonical_composition: the first elements become the canonical composition of the sequence, whose end is returned; "
                          "the count grows by the number of merged elements (C20; discharged here as well)")
    L = co.L(co.n)
    st.pc += [0 <= L, L <= co.n]
    j = z3.Int("j!compose")
    g = z3.Const(ex.fresh("overwritten"), ARR)
    st.mem[v.id] = (z3.Lambda([j], z3.If(j < L, z3.Select(co.O(co.n), j), z3.Select(g, j))), n)
    cells = dict(st.mem[q.obj])
    cells[q.off] = (4, IT(32, zint(itval(c[1])) + zint(n) - L))
    st.mem[q.obj] = cells
    return [(st, Ptr(v.id, L))]


def decomposition_contract(ex, st, f, args, x):
    """canonical_decomposition(c, out), compatibility_and_canonical_decomposition(c, out) (discharged in C18 and in every check that uses it)"""
    m = RX_DEC.match(f.dem)
    if not m or len(args) != 2 or not isinstance(args[0], BV) or not isinstance(args[1], Ptr):
        return None
    cid = cont.cont_at(ex, st, args[1])
    if cid is None or ex.objs[cid].esz != 4:
        return None
    kind = "canon" if m.group(1) == "canonical_decomposition" else "compat"
    ex.used_contracts.add(m.group(1) + ": appends the decomposition of the codepoint, or the codepoint itself, and returns the number of "
                          "codepoints appended (C18; discharged here as well)")
    c = zbv(args[0])
    st.pc += cont.flen_facts(kind, c)
    cont.mutate(ex, st, cid, cont.content(ex, st, cid) + (("app", kind, c),))
    return [(st, IT(32, cont.flen(kind, c)))]


RX_FROM32 = re.compile(r"u5e::basic_encodedstring<u5e::(?:utf8|utf32ne), std::__cxx11::basic_string<(char|int), [^()]*::append_from_utf32ne<u5e::basic_encodedstring<u5e::utf32ne, std::__cxx11::basic_string<int, [^()]*>\(")


def from32_contract(ex, st, f, args, x):
    """string.append_from_utf32ne<utf32ne_string>(first, last) (discharged in C24 and in every check that uses it)"""
    m = RX_FROM32.search(f.dem)
    if not m or len(args) != 3 or not isinstance(args[0], Ptr):
        return None
    p, q = [raw(ex, st, a) for a in args[1:]]
    if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.obj != q.obj:
        return None
    o = ex.objs[p.obj]
    cid = cont.cont_at(ex, st, args[0])
    esz = 1 if m.group(1) == "char" else 4
    if cid is None or ex.objs[cid].esz != esz or o.kind != "arr" or o.esz != 4 or o.id not in st.mem or st.mem[cid][0].view == o.id:
        return None
    A, n = st.mem[o.id]
    a, b = zint(p.off), zint(q.off)
    k = z3.Int(ex.fresh("k"))
    s2 = st.copy()
    s2.pc += [a <= k, k < b]
    if not ex.valid(st, z3.And(0 <= a, a <= b, b <= zint(n))):
        return None
    if ex.feasible(s2, z3.BoolVal(True)):
        c = ex.arr_read(s2, o, k)
        if not ex.valid(s2, scalar(c)):
            return None
    ex.used_contracts.add("append_from_utf32ne: appends the encoding of every codepoint of the range, in order, and returns the string (C24; discharged here as well)")
    seg = ("fold", "enc8", A, p.off, q.off) if esz == 1 else ("arr", A, p.off, q.off)
    cont.mutate(ex, st, cid, cont.content(ex, st, cid) + (seg,))
    return [(st, args[0])]


def raw(ex, st, a):
    while isinstance(a, Ptr) and ex.objs[a.obj].kind == "cells":
        a = st.mem.get(a.obj, {}).get(a.off, (0, UNDEF))[1]
    return a


def contracts(ex):
    """a caller is checked against the contracts of these callees, not against their bodies"""
    for m in (ordering_contract, composition_contract, decomposition_contract, from32_contract):
        ex.models.insert(0, m)


def read(ex, st, o, i, r):
    if o.kind == "arr" and o.esz == 4:
        for so in ex.sorts:
            so.hook(ex, st, i)
        for co in ex.comps:
            co.hook(ex, st, i)


def head(ex, h, hv):
    """the spec functions at the indices a loop head has"""
    if not ex.strong:
        return
    for v in hv.values():
        if isinstance(v, Ptr) and ex.objs[v.obj].kind == "arr":
            if ex.objs[v.obj].esz == 4:
                for so in ex.sorts:
                    so.hook(ex, h, v.off)


def value(ex, st, r):
    """an element read from a sequence that was rewritten is a scalar value, if that follows"""
    if r.sort() == B32 and not z3.is_bv_value(r) and ex.valid(st, scalar(r)):
        st.pc.append(scalar(r))


def point(ex, st, k):
    if ex.strong:
        for so in ex.sorts:
            so.hook(ex, st, k)


def install(ex):
    ex.point_hook = point
    ex.on_value = value
    ex.sorts, ex.comps, ex.orig = [], [], {}
    ex.models.insert(0, stable_sort)
    ex.read_hooks.append(read)
    ex.head_hooks.append(head)
    ex.arr_gens += [sort_templates, comp_templates]
    ex.cand_gens.append(cands)
    ex.assumptions.add("the numbers of elements are treated as mathematical integers")
