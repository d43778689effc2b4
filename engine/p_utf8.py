"""C01-C05: UTF-8 iterators on well-formed text."""
import z3
from symex import *
from texts import *
from proof import unit

CK = ["CIs", "CIp", "CIu", "CIg", "MIs", "MIp", "MIu"]
MK = ["MIs", "MIp", "MIu"]
LIM = [0, 0x80, 0x800, 0x10000, 0x110000]


def mktext(u):
    ex = u.ex
    st = St()
    T = Text("T")
    st.pc += T.facts()
    o = text8_obj(ex, st, T)
    ex.named.append(("T.n", T.n))
    return ex, st, T, o


def inside(st, T, i, k, name, ex, end_ok=False):
    """i, k is an octet of codepoint i (or, for k == 0, the end)"""
    st.pc += [i >= 0, i < T.n] if not (end_ok and k == 0) else [i >= 0, i <= T.n]
    c = T.cp(i)
    g = [scalar(c)]
    if k:
        g.append(z3.UGE(c, LIM[k]))
    st.pc.append(z3.Implies(i < T.n, z3.And(*g)))
    ex.named.append((name, i))
    ex.named.append((name + ".cp", c))


def outp(ex, st, n=1):
    ps = []
    for j in range(n):
        o = ex.new_obj("cells", "out%d" % j, 8)
        st.mem[o.id] = {}
        ps.append(Ptr(o.id, 0))
    return ps


def got(st, p):
    c = st.mem[p.obj].get(0)
    return c[1] if c else UNDEF


def at(p, o, i, k=None):
    """z3 / bool: pointer p is on codepoint i of text object o (octet k)"""
    if not isinstance(p, Ptr) or p.obj != o.id:
        return False
    r = ieq(p.off[0], i)
    if k is not None and p.off[1] != k:
        return False
    return zb(r)


def nm(ex):
    ex.named.append


def deref(K, k):
    def f(u):
        ex, st, T, o = mktext(u)
        i = z3.Int("i")
        inside(st, T, i, k, "i", ex)
        a, = outp(ex, st)
        rs = ex.call("vp_deref_" + K, [Ptr(o.id, (i, k)), a], st)
        for s, v in u.returns(rs):
            ok = isinstance(v, BV)
            ex.prove(s, zbv(v) == T.cp(i) if ok else False, "value read is the encoded codepoint")
            ex.prove(s, at(got(s, a), o, i), "the iterator stays on the same codepoint")
    return f


def step(K, k, op):
    def f(u):
        ex, st, T, o = mktext(u)
        i = z3.Int("i")
        fwd = op.endswith("inc")
        inside(st, T, i, k, "i", ex, end_ok=not fwd)
        if not fwd:
            st.pc.append(i >= 1)
            st.pc.append(scalar(T.cp(i - 1)))
            ex.named.append(("prev.cp", T.cp(i - 1)))
        a, = outp(ex, st)
        rs = ex.call("vp_%s_%s" % (op, K), [Ptr(o.id, (i, k)), a], st)
        dst = i + 1 if fwd else i - 1
        for s, v in u.returns(rs):
            ex.prove(s, at(got(s, a), o, dst, 0), "the iterator moves to the first octet of the %s codepoint" % ("next" if fwd else "previous"))
            if op.startswith("pre"):
                ex.prove(s, at(v, o, dst, 0), "the moved iterator is returned")
            else:
                ex.prove(s, at(v, o, i), "an iterator on the codepoint where it was is returned")
    return f


def eq(K, k, l, op):
    def f(u):
        ex, st, T, o = mktext(u)
        i, j = z3.Ints("i j")
        inside(st, T, i, k, "i", ex, end_ok=True)
        inside(st, T, j, l, "j", ex, end_ok=True)
        a, b = outp(ex, st, 2)
        p, q = Ptr(o.id, (i, k)), Ptr(o.id, (j, l))
        rs = ex.call("vp_%s_%s" % (op, K), [p, q, a, b], st)
        for s, v in u.returns(rs):
            w = i == j if op == "eq" else i != j
            ex.prove(s, zbool(v) == w if isinstance(v, BV) else False,
                     "iterators are %s exactly when on the %s codepoint" % (("equal", "same") if op == "eq" else ("unequal", "a different")))
            ex.prove(s, at(got(s, a), o, i, k), "comparing does not move the left operand")
            ex.prove(s, at(got(s, b), o, j, l), "comparing does not move the right operand")
    return f


def copy(K, k, op):
    def f(u):
        ex, st, T, o = mktext(u)
        i, j = z3.Ints("i j")
        inside(st, T, i, k, "i", ex, end_ok=True)
        inside(st, T, j, 0, "j", ex, end_ok=True)
        p, q = Ptr(o.id, (i, k)), Ptr(o.id, (j, 0))
        if op == "copy":
            rs = ex.call("vp_copy_" + K, [p], st)
        else:
            rs = ex.call("vp_assign_" + K, [q, p], st)
        for s, v in u.returns(rs):
            ex.prove(s, at(v, o, i, k), "a copied iterator is where the original is")
    return f


def first(K):
    """dereferencing at the first octet leaves the iterator there"""
    def f(u):
        ex, st, T, o = mktext(u)
        i = z3.Int("i")
        inside(st, T, i, 0, "i", ex)
        a, = outp(ex, st)
        rs = ex.call("vp_deref_" + K, [Ptr(o.id, (i, 0)), a], st)
        for s, v in u.returns(rs):
            ex.prove(s, at(got(s, a), o, i, 0), "an iterator on the first octet stays there")
    return f


def callee_units(prop):
    """the contracts of utf8_const_iterator that the code above it is checked against"""
    for K in ("CIs", "CIp"):
        unit(prop, "callee contract: deref " + K, "utf8", deref(K, 0))
        unit(prop, "callee contract: deref stays " + K, "utf8", first(K))
        for op in ("preinc", "predec"):
            unit(prop, "callee contract: %s %s" % (op, K), "utf8", step(K, 0, op))
        for op in ("eq", "ne"):
            unit(prop, "callee contract: %s %s" % (op, K), "utf8", eq(K, 0, 0, op))


NOMEM = "^memory:|^shift|^initialised"
MEM = "^memory:|vacuity"
for K in CK:
    for k in range(4):
        unit("C01", "deref %s octet %d" % (K, k), "utf8", deref(K, k), drop=NOMEM)
        unit("C05", "deref %s octet %d" % (K, k), "utf8", deref(K, k), keep=MEM)
        for op in ("preinc", "postinc", "predec", "postdec"):
            unit("C03", "%s %s octet %d" % (op, K, k), "utf8", step(K, k, op), drop=NOMEM)
            unit("C05", "%s %s octet %d" % (op, K, k), "utf8", step(K, k, op), keep=MEM)
        for op in ("copy", "assign"):
            unit("C04", "%s %s octet %d" % (op, K, k), "utf8", copy(K, k, op), drop=NOMEM)
            unit("C05", "%s %s octet %d" % (op, K, k), "utf8", copy(K, k, op), keep=MEM)
        for l in range(4):
            for op in ("eq", "ne"):
                unit("C04", "%s %s octets %d,%d" % (op, K, k, l), "utf8", eq(K, k, l, op), drop=NOMEM)
                unit("C05", "%s %s octets %d,%d" % (op, K, k, l), "utf8", eq(K, k, l, op), keep=MEM)


def write(K, L, L2, op):
    def f(u):
        ex = u.ex
        st = St()
        c, old = z3.BitVec("c", 32), z3.BitVec("old", 32)
        ex.named += [("c", c), ("old", old)]
        lo = [0, 0, 0x80, 0x800, 0x10000]
        for x, l in ((c, L), (old, L2)):
            st.pc += [scalar(x), z3.UGE(x, lo[l]), z3.ULT(x, LIM[l])]
        n = max(L, L2)
        o = ex.new_obj("cells", "buffer", n)
        cells = {}
        before = []
        for k in range(n):
            v = mkbv(8, enc_octet(old, k, L2)) if k < L2 else BV(8, z3.BitVec("rest%d" % k, 8))
            if k >= L2:
                ex.named.append(("rest%d" % k, v.e))
            cells[k] = (1, v)
            before.append(zbv(v))
        st.mem[o.id] = cells
        p = Ptr(o.id, 0)
        if op == "write":
            a, = outp(ex, st)
            rs = ex.call("vp_write_" + K, [p, BV(32, c), a], st)
        else:
            rs = ex.call("vp_%s_%s" % (op, K), [p, BV(32, c)], st)
        for s, v in u.returns(rs):
            for k in range(n):
                w = s.mem[o.id].get(k)
                w = w[1] if w and w[0] == 1 else ex.cell_load(s, s.mem[o.id], k, T8, o)
                if k < L:
                    ex.prove(s, zbv(w) == enc_octet(c, k, L) if isinstance(w, BV) else False, "octet %d stored is that of the UTF-8 form" % k)
                else:
                    ex.prove(s, zbv(w) == before[k] if isinstance(w, BV) else False, "octet %d after the codepoint is untouched" % k)
            if op == "write":
                q = got(s, a)
                ex.prove(s, isinstance(q, Ptr) and q.obj == o.id and 0 <= q.off < L, "the iterator is left inside the codepoint written")
            elif op == "writeinc":
                ex.prove(s, isinstance(v, Ptr) and v.obj == o.id and v.off == L, "incrementing moves right after the encoding")
            else:
                ex.prove(s, zbv(v) == c if isinstance(v, BV) else False, "reading back gives the value written")
    return f


from symex import _T
T8 = _T(8)
for K in MK:
    for L in range(1, 5):
        for L2 in range(1, 5):
            for op in ("write", "writeinc", "writeread"):
                unit("C02", "%s %s %d over %d octets" % (op, K, L, L2), "utf8", write(K, L, L2, op), drop="^shift")
