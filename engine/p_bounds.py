"""C06-C08: bounds check and enforcement over arbitrary octets."""
import z3
from symex import *
from proof import unit
from p_utf8 import outp, got, CK

B8 = z3.BitVecSort(8)


def cont(x):
    return z3.Extract(7, 6, x) == 2


def lead(x):
    return z3.Extract(7, 6, x) == 3


def announced(x):
    """octets announced by a leading octet: its number of leading one bits"""
    r = z3.IntVal(8)
    for k in range(0, 8):
        r = z3.If(z3.Extract(k, k, x) == 0, 7 - k, r)
    return r


def bad(b, t, n):
    x = z3.Select(b, t)
    return z3.And(lead(x), announced(x) > n - t)


def octets(u, name="b"):
    ex = u.ex
    st = St()
    b = z3.Array(name, z3.IntSort(), B8)
    n = z3.Int("n")
    st.pc.append(n >= 0)
    o = ex.new_obj("arr", "octets")
    o.esz = 1
    o.n = n
    st.mem[o.id] = (b, n)
    ex.named.append(("n", n))
    for k in range(9):
        ex.named.append(("b[%d]" % k, z3.Select(b, k)))
        ex.named.append(("b[n-%d]" % (k + 1), z3.Select(b, n - 1 - k)))
    return ex, st, b, n, o


def accept(b, n):
    return z3.Or(n == 0, z3.And(z3.Not(cont(z3.Select(b, 0))),
                                *[z3.Implies(n >= d, z3.Not(bad(b, n - d, n))) for d in range(1, 8)]))


def forall_gen(b, n):
    """candidate: no octet passed so far is a bad leading octet / all passed are continuation"""
    def gen(ex, st, entry, kinds, ptrs, cnts, bvs, arrs, rc):
        out = []
        t = z3.Int("t!q")
        for l, k in ptrs:
            e0 = zint(entry[l].off)
            for lab, p in (("not bad", lambda x: z3.Not(bad(b, x, n))), ("continuation", lambda x: cont(z3.Select(b, x)))):
                def fw(vals, s, l=l, e0=e0, p=p):
                    v = vals.get(l)
                    return None if not isinstance(v, Ptr) else z3.ForAll([t], z3.Implies(z3.And(e0 <= t, t < zint(v.off)), p(t)))

                def bw(vals, s, l=l, e0=e0, p=p):
                    v = vals.get(l)
                    return None if not isinstance(v, Ptr) else z3.ForAll([t], z3.Implies(z3.And(zint(v.off) <= t, t < e0), p(t)))
                out.append(("octets passed are " + lab, fw))
                out.append(("octets passed backwards are " + lab, bw))
        return out
    return gen


def at_gen(b, o):
    """candidate: the octet the iterator is on is / is not a continuation octet"""
    def gen(ex, st, entry, kinds, ptrs, cnts, bvs, arrs, rc):
        out = []
        for l, k in ptrs:
            for lab, p in (("a continuation", lambda x: cont(x)), ("no continuation", lambda x: z3.Not(cont(x)))):
                def at(vals, s, l=l, p=p):
                    v = vals.get(l)
                    return p(z3.Select(b, zint(v.off))) if isinstance(v, Ptr) and v.obj == o.id else None
                out.append(("the octet is " + lab, at))
        return out
    return gen


def check(S, half=None):
    def f(u):
        ex, st, b, n, o = octets(u)
        ex.cand_gens.append(forall_gen(b, n))
        rs = ex.call("vp_check_" + S, [Ptr(o.id, 0), Ptr(o.id, n)], st)
        for s, v in u.returns(rs):
            if half == "complete":
                ex.prove(s, z3.Implies(accept(b, n), zbool(v)) if isinstance(v, BV) else False,
                         "a range that needs no repair is accepted")
                continue
            if half == "sound":
                ex.prove(s, z3.Implies(zbool(v), accept(b, n)) if isinstance(v, BV) else False,
                         "what is accepted does not start inside a codepoint and announces no octet after the end")
                continue
            ex.prove(s, zbool(v) == accept(b, n) if isinstance(v, BV) else False, "verdict is exact")
            ex.prove(s, s.mem[o.id][0] is b or s.mem[o.id][0] == b, "nothing is changed")
    return f


def enforce(S):
    def f(u):
        ex, st, b, n, o = octets(u)
        P = z3.Int("P")     # ghost: number of continuation octets at the start
        st.pc += [P >= 0, P <= n, z3.Implies(P < n, z3.Not(cont(z3.Select(b, P))))]
        st.pc.append(z3.Implies(P > 0, cont(z3.Select(b, 0))))
        J = z3.Int("J")
        st.pc += [z3.Implies(z3.And(J >= 0, J < P), cont(z3.Select(b, J)))]
        for d in range(1, 8):
            st.pc.append(z3.Implies(z3.And(n - d >= 0, n - d < P), cont(z3.Select(b, n - d))))
        ex.named += [("P", P), ("J", J), ("b[J]", z3.Select(b, J))]
        ex.extra_idx.append((o.id, P))

        def on_read(ex, s, oo, i, r):
            if oo is o:
                i = zint(i)
                s.pc.append(z3.Implies(z3.And(i >= 0, i < P), cont(z3.Select(b, i))))
        ex.on_read = on_read
        ex.fill_values = [z3.BitVecVal(0x3f, 8)]
        rs = ex.call("vp_enforce_" + S, [Ptr(o.id, 0), Ptr(o.id, n)], st)
        Q = z3.BitVecVal(0x3f, 8)

        def want(t):
            return z3.If(z3.And(t >= 0, t < n, z3.Or(t < P, bad(b, t, n))), Q, z3.Select(b, t))
        for s, v in u.returns(rs):
            a = s.mem[o.id][0]
            ex.prove(s, z3.simplify(z3.Select(a, J)) == want(J), "every octet is repaired or kept as the rules say")
            ch = z3.Or(P > 0, *[z3.And(n >= d, bad(b, n - d, n)) for d in range(1, 8)])
            ex.prove(s, zbool(v) == z3.Not(ch) if isinstance(v, BV) else False, "returns true exactly when nothing is changed")
    return f


def enforce_lemma(u):
    """The contract of enforce implies the predicate that C06 proves check to decide."""
    ex, st, b, n, o = octets(u)
    P = z3.Int("P")
    w = z3.Array("w", z3.IntSort(), B8)
    Q = z3.BitVecVal(0x3f, 8)
    st.pc += [P >= 0, P <= n, z3.Implies(P < n, z3.Not(cont(z3.Select(b, P))))]
    for t in [z3.IntVal(0)] + [n - d for d in range(1, 8)]:
        st.pc.append(z3.Implies(z3.And(t >= 0, t < n), z3.Select(w, t) ==
                                z3.If(z3.Or(t < P, bad(b, t, n)), Q, z3.Select(b, t))))
    u.returns([(st, None)])
    ex.prove(st, accept(w, n), "the bounds check accepts the repaired range")


def safe(K, op, case=None):
    def f(u):
        ex, st, b, n, o = octets(u)
        ex.shift_any = True
        ex.cand_gens.append(at_gen(b, o))
        p = z3.Int("p")
        st.pc += [n > 0, z3.Not(cont(z3.Select(b, 0))), p >= 0]

        def on_read(ex, s, oo, i, r):
            if oo is o:
                i = zint(i)
                s.pc.append(z3.Implies(z3.And(i >= 0, i < n), z3.Not(bad(b, i, n))))
        ex.on_read = on_read
        ex.named += [("p", p), ("b[p]", z3.Select(b, p))]
        if op.endswith("dec"):
            q = z3.Int("q")
            st.pc += [p <= n, q > 0, q <= p, z3.Or(q == n, z3.Not(cont(z3.Select(b, q))))]
            st.pc.append(p == q if case == "start" else p > q)
            ex.extra_idx.append((o.id, q))
        else:
            st.pc.append(p < n)
        a, = outp(ex, st)
        rs = ex.call("vp_%s_%s" % (op, K), [Ptr(o.id, p), a], st)
        for s, v in u.returns(rs):
            for x in ([got(s, a)] if op == "deref" else [got(s, a), v]):
                ex.prove(s, z3.And(zint(x.off) >= 0, zint(x.off) <= n) if isinstance(x, Ptr) and x.obj == o.id else False,
                         "the iterator stays within the range")
            ex.prove(s, s.mem[o.id][0] is b or s.mem[o.id][0] == b, "nothing is changed")
    return f


for S in ("p", "u", "s"):
    unit("C06", "check " + S, "bounds", check(S))
    unit("C07", "enforce " + S, "bounds", enforce(S))
    unit("C08", "what check accepts " + S, "bounds", check(S, "sound"))
    unit("C07", "check of a range that needs no repair " + S, "bounds", check(S, "complete"))
unit("C07", "lemma: check accepts the result", "bounds", enforce_lemma)
for K in CK:
    unit("C08", "deref " + K, "utf8", safe(K, "deref"), drop="^shift|^initialised|^count leading")
    for op in ("preinc", "postinc"):
        unit("C08", "%s %s" % (op, K), "utf8", safe(K, op), drop="^shift|^initialised")
    for op in ("predec", "postdec"):
        for case in ("start", "inside"):
            unit("C08", "%s %s %s" % (op, K, case), "utf8", safe(K, op, case), drop="^shift|^initialised")
