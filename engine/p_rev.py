"""C29: reverse iterators; C30: the codepoint class; C31: octet classification."""
import z3
from symex import *
from texts import *
from proof import unit
import cont, p_graph, p_utf8
from p_utf8 import inside, outp, got, NOMEM

# instantiation -> UTF-8?
RK = {"cu8s": 1, "cu8v": 1, "mu8s": 1, "mu8v": 1, "CIu": 1, "MIu": 1, "cu32s": 0, "cu32v": 0, "mu32s": 0, "mu32v": 0}


def mk(u, K):
    ex = u.ex
    st = St()
    T = Text("T")
    st.pc += T.facts()
    o = text8_obj(ex, st, T) if RK[K] else text32_obj(ex, st, T)
    ex.named.append(("T.n", T.n))
    return ex, st, T, o


def P(o, i, k):
    return Ptr(o.id, (i, k)) if o.kind == "u8text" else Ptr(o.id, i)


def at(p, o, i, k=None):
    if not isinstance(p, Ptr) or p.obj != o.id:
        return False
    if o.kind == "u8text":
        return p_utf8.at(p, o, i, k)
    return zb(ieq(p.off, i))


def prev(ex, st, T, i):
    st.pc += [i >= 1, scalar(T.cp(i - 1))]
    ex.named.append(("prev.cp", T.cp(i - 1)))


def rderef(K, k):
    def f(u):
        ex, st, T, o = mk(u, K)
        i = z3.Int("i")
        inside(st, T, i, k, "i", ex, end_ok=True)
        prev(ex, st, T, i)
        a, = outp(ex, st)
        rs = ex.call("vp_rderef_" + K, [P(o, i, k), a], st)
        for s, v in u.returns(rs):
            ex.prove(s, zbv(v) == T.cp(i - 1) if isinstance(v, BV) else False, "value read is the codepoint before the position")
            ex.prove(s, at(got(s, a), o, i, k), "reading does not move the reverse iterator")
    return f


def rstep(K, k, op):
    def f(u):
        ex, st, T, o = mk(u, K)
        i = z3.Int("i")
        inc = op.endswith("inc")
        inside(st, T, i, k, "i", ex, end_ok=inc)
        if inc:
            prev(ex, st, T, i)
        a, = outp(ex, st)
        rs = ex.call("vp_r%s_%s" % (op, K), [P(o, i, k), a], st)
        dst = i - 1 if inc else i + 1
        for s, v in u.returns(rs):
            ex.prove(s, at(got(s, a), o, dst, 0), "the reverse iterator moves by exactly one codepoint, to the first octet")
            if op.startswith("pre"):
                ex.prove(s, at(v, o, dst, 0), "the moved reverse iterator is returned")
            else:
                ex.prove(s, at(v, o, i), "a reverse iterator at the codepoint where it was is returned")
    return f


def req(K, k, l, op):
    def f(u):
        ex, st, T, o = mk(u, K)
        i, j = z3.Ints("i j")
        inside(st, T, i, k, "i", ex, end_ok=True)
        inside(st, T, j, l, "j", ex, end_ok=True)
        a, b = outp(ex, st, 2)
        rs = ex.call("vp_r%s_%s" % (op, K), [P(o, i, k), P(o, j, l), a, b], st)
        for s, v in u.returns(rs):
            w = i == j if op == "eq" else i != j
            ex.prove(s, zbool(v) == w if isinstance(v, BV) else False, "reverse iterators are %s exactly when at the %s codepoint" %
                     (("equal", "same") if op == "eq" else ("unequal", "a different")))
            ex.prove(s, at(got(s, a), o, i, k), "comparing does not move the left operand")
            ex.prove(s, at(got(s, b), o, j, l), "comparing does not move the right operand")
    return f


def rcopy(K, k, op):
    def f(u):
        ex, st, T, o = mk(u, K)
        i, j = z3.Ints("i j")
        inside(st, T, i, k, "i", ex, end_ok=True)
        inside(st, T, j, 0, "j", ex, end_ok=True)
        rs = ex.call("vp_rcopy_" + K, [P(o, i, k)], st) if op == "copy" else ex.call("vp_rassign_" + K, [P(o, j, 0), P(o, i, k)], st)
        for s, v in u.returns(rs):
            ex.prove(s, at(v, o, i, k), "a copied reverse iterator is where the original is")
    return f


for K, u8 in RK.items():
    ks = range(4) if u8 else (0,)
    for k in ks:
        unit("C29", "read %s octet %d" % (K, k), "rev", rderef(K, k))
        for op in ("preinc", "postinc", "predec", "postdec"):
            unit("C29", "%s %s octet %d" % (op, K, k), "rev", rstep(K, k, op))
        for op in ("copy", "assign"):
            unit("C29", "%s %s octet %d" % (op, K, k), "rev", rcopy(K, k, op))
        for l in ks:
            for op in ("eq", "ne"):
                unit("C29", "%s %s octets %d,%d" % (op, K, k, l), "rev", req(K, k, l, op))


# -- C30 ---------------------------------------------------------------
def value(fn, spec, outs=(), nargs=1):
    """spec(args) -> result (formula or 32 bit term); outs: 32 bit values stored"""
    def f(u):
        ex = u.ex
        st = St()
        vs = [z3.BitVec("vw"[j], 32) for j in range(nargs)]
        for v in vs:
            ex.named.append((str(v), v))
        ps = []
        for j in range(len(outs)):
            o = ex.new_obj("cells", "out%d" % j, 4)
            st.mem[o.id] = {}
            ps.append(Ptr(o.id, 0))
        rs = ex.call(fn, [BV(32, v) for v in vs] + ps, st)
        for s, r in u.returns(rs):
            w = spec(*vs)
            if isinstance(w, bool):
                w = z3.BoolVal(w)
            if not isinstance(r, BV):
                ex.prove(s, False, "a value is returned")
            elif z3.is_bool(w):
                ex.prove(s, zbool(r) == w, "the result is right for every value")
            else:
                ex.prove(s, zbv(r) == w, "the value is exactly the one given")
            for p, g in zip(ps, outs):
                c = s.mem[p.obj].get(0)
                c = c[1] if c and c[0] == 4 else None
                ex.prove(s, zbv(c) == g(*vs) if isinstance(c, BV) else False, "the operands hold the right values afterwards")
    return f


ONE = lambda v: v
V1, V2 = (lambda v, w: v), (lambda v, w: w)
for fn, name, spec, outs, n in [
        ("vp_cdefault", "default", lambda: z3.BitVecVal(0, 32), (), 0), ("vp_cvalueinit", "value initialised", lambda: z3.BitVecVal(0, 32), (), 0),
        ("vp_cfrom", "from an integer", ONE, (), 1), ("vp_cimplicit", "implicitly from an integer", ONE, (), 1),
        ("vp_cto", "to an integer", ONE, (), 1), ("vp_ccopy", "copy", ONE, (ONE,), 1), ("vp_cself", "assigned to itself", ONE, (), 1),
        ("vp_cassignself", "assigned", lambda v, w: True, (V1, V1), 2), ("vp_cassignint", "assigned an integer", lambda v, w: True, (V1,), 2),
        ("vp_ceq", "==", lambda v, w: v == w, (V1, V2), 2), ("vp_ceqint", "== an integer", lambda v, w: v == w, (V1,), 2),
        ("vp_cinteq", "integer ==", lambda v, w: v == w, (V2,), 2), ("vp_cne", "!=", lambda v, w: v != w, (), 2),
        ("vp_cneint", "!= an integer", lambda v, w: v != w, (), 2), ("vp_cless", "<", lambda v, w: v < w, (), 2), ("vp_clessint", "< an integer", lambda v, w: v < w, (), 2)]:
    unit("C30", "codepoint " + name, "cp", value(fn, spec, outs, n))


# -- C31 ---------------------------------------------------------------
def octet(fn, spec, w=8, pre=None):
    def f(u):
        ex = u.ex
        st = St()
        c = z3.BitVec("c", w)
        ex.named.append(("c", c))
        if pre:
            st.pc.append(pre(c))
        for s, r in u.returns(ex.call(fn, [BV(w, c)], st)):
            x = spec(c)
            if z3.is_bool(x):
                ex.prove(s, zbool(r) == x if isinstance(r, BV) else False, "the octet is classified by its leading bits")
            else:
                ex.prove(s, zbv(r) == x if isinstance(r, BV) else False, "the length is exact")
    return f


def lead(c):
    """octets announced: the leading one bits of a leading octet, 1 for any other"""
    r = z3.BitVecVal(1, 32)
    for n in range(2, 9):
        r = z3.If(z3.Extract(7, 8 - n, c) == z3.BitVecVal(2 ** n - 1, n), z3.BitVecVal(n, 32), r)
    return r


B8 = lambda x: z3.BitVecVal(x, 8)
B32 = lambda x: z3.BitVecVal(x, 32)
unit("C31", "7 bit character", "util", octet("vp_is7", lambda c: z3.ULT(c, B8(0x80))))
unit("C31", "continuation octet", "util", octet("vp_iscont", lambda c: z3.And(z3.UGE(c, B8(0x80)), z3.ULE(c, B8(0xBF)))))
unit("C31", "leading octet", "util", octet("vp_isstart", lambda c: z3.UGE(c, B8(0xC0))))
unit("C31", "length announced by an octet", "util", octet("vp_cpsize", lead))
unit("C31", "length of the encoding of a codepoint", "util", octet(
    "vp_encsize", lambda c: z3.If(c < 0x80, B32(1), z3.If(c < 0x800, B32(2), z3.If(c < 0x10000, B32(3), B32(4)))), 32,
    lambda c: z3.And(c >= 0, c <= 0x10FFFF)))
