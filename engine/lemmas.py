"""Induction steps of the facts about spec functions that the executor uses as instances."""
import z3
from symex import *
from texts import *
from proof import unit
import cont
from cont import B32


def prove(u, hyp, goal, name):
    st = St()
    st.pc += hyp
    u.returns([(st, None)], name)
    u.ex.prove(st, goal, "lemma: " + name)


def sizes(u):
    """prefix sums of lengths grow by at least one per element"""
    A = z3.Const("A", ARR)
    lo, hi = z3.Ints("lo hi")
    for F in cont.FOLDS:
        p = cont.PS(F, A)
        c = z3.Select(A, hi)
        prove(u, [lo <= hi, p(hi) - p(lo) >= hi - lo] + cont.ps_step(F, A, hi), p(hi + 1) - p(lo) >= hi + 1 - lo,
              "prefix sums of the lengths of %s grow with every element" % F)
        prove(u, cont.flen_facts(F, c), cont.flen(F, c) >= 1, "%s of a codepoint is not empty" % F)
    T = Text("T")
    i, j = z3.Ints("i j")
    prove(u, [i <= j, T.OFF(j) >= T.OFF(i) + (j - i), T.OFF(j + 1) == T.OFF(j) + enc_len(T.cp(j))], T.OFF(j + 1) >= T.OFF(i) + (j + 1 - i),
          "offsets of codepoints grow with every codepoint")


def counts(u):
    """prefix counts of boundaries grow"""
    B, BC = z3.Function("B", z3.IntSort(), z3.BoolSort()), z3.Function("BC", z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("i j")
    prove(u, [i <= j, BC(i) <= BC(j), BC(j + 1) == BC(j) + z3.If(B(j + 1), 1, 0)], BC(i) <= BC(j + 1), "prefix counts of boundaries grow")


def zeros(u):
    """prefix counts of the elements of class zero grow by 0 or 1 per element"""
    Z, X = z3.Function("Z", z3.IntSort(), z3.IntSort()), z3.Const("X", ARR)
    i, j = z3.Ints("i j")
    inv = lambda j: z3.And(Z(i) <= Z(j), Z(j) - Z(i) <= j - i)
    import order
    prove(u, [], inv(i), "prefix counts of elements of class zero, start")
    prove(u, [i <= j, inv(j), Z(j + 1) == Z(j) + z3.If(order.ccc0(z3.Select(X, j)), 1, 0)], inv(j + 1), "prefix counts of elements of class zero, step")


def composed(u):
    """the composition machine keeps its indices in range and its elements scalar values"""
    import order
    ex = u.ex
    ex.comps, ex.sorts = [], []
    Y = z3.Const("Y", ARR)
    n, k, j = z3.Ints("n k j")
    co = order.Comp(ex, Y, n)
    y = z3.Select(Y, k)
    inv = lambda k: z3.And(0 <= co.L(k), co.L(k) <= k, -1 <= co.S(k), co.S(k) < co.L(k))
    ok = lambda k, j: z3.Implies(z3.And(0 <= j, j < co.L(k)), scalar(z3.Select(co.O(k), j)))
    s = co.S(k)
    c = order.COMPF(z3.Select(co.O(k), s), y)
    hyp = [0 <= k, k < n, inv(k), scalar(y), ok(k, j), ok(k, s), z3.Implies(order.HASCMP(z3.Select(co.O(k), s), y), scalar(c))] + co.facts(k)
    prove(u, hyp, z3.And(inv(k + 1), ok(k + 1, j)), "composition keeps elements scalar values, step")
    prove(u, co.base(), z3.And(inv(0), ok(0, j)), "composition keeps elements scalar values, start")


def simulation(u):
    """Composing a text grapheme by grapheme gives what composing the whole text gives.

    Y: the whole text, decomposed and ordered; [b, e): a grapheme of it.  W composes Y, G composes Y[b, e) alone."""
    import order
    from p_props import CCC
    ex = u.ex
    ex.comps, ex.sorts = [], []
    Y, Yg = z3.Const("Y", ARR), z3.Const("Yg", ARR)
    n, b, e, k, i = z3.Ints("n b e k i")
    W, G = order.Comp(ex, Y, n), order.Comp(ex, Yg, e - b)
    Sel, has = z3.Select, order.HASCMP
    z = lambda p: order.ccc0(Sel(Y, p))
    Lp, Sb = W.L(b), W.S(b)
    x = z3.BitVec("x", 32)

    def ok(M, k):
        return z3.And(0 <= M.L(k), M.L(k) <= k, -1 <= M.S(k), M.S(k) < M.L(k), z3.ULE(M.C(k), 254))

    def dead(x):
        """nothing composes with the last starter before the grapheme"""
        return z3.Or(Sb < 0, z3.Not(has(Sel(W.O(b), Sb), x)))

    def rel(k, i, xs):
        j = k - b
        return z3.And(ok(W, k), ok(G, j), Lp <= W.L(k), W.L(k) == Lp + G.L(j),
                      *[z3.Implies(z3.And(0 <= t, t < G.L(j)), Sel(W.O(k), Lp + t) == Sel(G.O(j), t)) for t in (i, G.S(j))],
                      *[z3.Implies(z3.And(0 <= t, t < Lp), Sel(W.O(k), t) == Sel(W.O(b), t)) for t in (i, Sb)],
                      z3.If(G.S(j) >= 0, z3.And(W.S(k) == Lp + G.S(j), W.C(k) == G.C(j)), z3.And(W.S(k) == Sb, *[dead(x) for x in xs])))
    same = Sel(Yg, k - b) == Sel(Y, k)
    rng = [0 <= b, b < e, e <= n, b <= k, k < e]
    steps = W.facts(k) + G.facts(k - b) + [z3.ULE(CCC(Sel(Y, k)), 254)]
    y = Sel(Y, k)
    # rel(k) for every index of the prefix: the instances the step needs
    j1 = k + 1 - b
    inst = [rel(k, t, [y, x]) for t in (i, G.S(j1))]
    prove(u, rng + [same, ok(W, b)] + steps + inst, rel(k + 1, i, [x]), "composition of a grapheme simulates that of the text, step")
    at0 = [ok(W, b), k == b] + G.base()
    prove(u, rng + [same] + steps + at0 + [z(b), z3.Not(W.merges(b))], rel(k + 1, i, [x]),
          "composition of a grapheme simulates that of the text, a starter that is not composed with the text before")
    prove(u, rng + [same] + steps + at0 + [dead(y), dead(x)], rel(k + 1, i, [x]),
          "composition of a grapheme simulates that of the text, a mark after a control")
    # what is merged into the last starter is in the decomposition of the result
    IN = z3.Function("in_decomposition", B32, B32, z3.BoolSort())
    SRC = z3.Function("starter_source", z3.IntSort(), z3.IntSort())
    t = z3.Int("t")
    s = W.S(k)
    o = Sel(W.O(k), s)
    src = [SRC(k + 1) == z3.If(z3.And(z(k), z3.Not(W.merges(k))), k, SRC(k))]
    inv = lambda k, t: z3.And(ok(W, k), z3.Implies(W.S(k) >= 0, z3.And(
        0 <= SRC(k), SRC(k) < k, z(SRC(k)),
        z3.Implies(z3.And(W.L(k) == W.S(k) + 1, SRC(k) <= t, t < k), IN(Sel(W.O(k), W.S(k)), Sel(Y, t))))))
    c27 = [IN(y, y), z3.Implies(has(o, y), z3.And(IN(order.COMPF(o, y), y), *[z3.Implies(IN(o, d), IN(order.COMPF(o, y), d)) for d in (Sel(Y, t),)]))]
    prove(u, [0 <= k, k < n, inv(k, t), z3.ULE(CCC(y), 254)] + W.facts(k) + src + c27, inv(k + 1, t), "what was merged into a starter is in its decomposition, step")
    prove(u, W.base(), inv(z3.IntVal(0), t), "what was merged into a starter is in its decomposition, start")
    # the codepoint before the boundary ends in something that was merged, so the pair is one the tables are checked for
    r = z3.Int("r")
    a = Sel(W.O(b), Sb)
    prove(u, [0 < b, b < n, inv(b, t), z(b), W.merges(b),
              # t: where the order put the last element of the text before b; [r, b): the marks at its end
              z3.Or(z3.And(z(b - 1), t == b - 1), z3.And(0 <= r, r <= t, t < b, z3.Implies(z3.And(r <= SRC(b), SRC(b) < b), z3.Not(z(SRC(b))))))],
          z3.And(IN(a, Sel(Y, t)), has(a, Sel(Y, b))), "a composition across a boundary is one of a pair that the tables exclude")
    # a control composes with nothing
    ctl = z3.Function("control", B32, z3.BoolSort())
    q = Sel(Y, k)
    prove(u, [0 <= k, k < n, ok(W, k), ctl(q), z(k), z3.Implies(ctl(q), z3.And(z3.Not(has(o, q)), z3.Not(has(q, x))))] + W.facts(k),
          z3.And(W.S(k + 1) >= 0, Sel(W.O(k + 1), W.S(k + 1)) == q, z3.Not(has(Sel(W.O(k + 1), W.S(k + 1)), x))),
          "nothing composes with a control")
    # runs: a run of marks of the text is one of its grapheme, and the other way round
    s, f = z3.Ints("s f")
    st0 = lambda p, lo: z3.Or(p == lo, z(p - 1))
    en0 = lambda p, hi: z3.Or(p == hi, z(p))
    edge = lambda p, lo: z3.Or(p == 0, p == n, z(p), z(p - 1))
    mark = [s < f, z3.Not(z(s)), z3.Not(z(f - 1)), 0 <= b, b < e, e <= n, edge(b, 0), edge(e, 0)]
    nozero = lambda p: z3.Implies(z3.And(s <= p, p < f), z3.Not(z(p)))
    prove(u, mark + [0 <= s, f <= n, st0(s, 0), en0(f, n), s < e, f > b, nozero(b), nozero(b - 1), nozero(e), nozero(e - 1)],
          z3.And(b <= s, f <= e, st0(s, b), en0(f, e)), "a maximal run of the text that meets a grapheme is one of the grapheme")
    prove(u, mark + [b <= s, f <= e, st0(s, b), en0(f, e), nozero(b), nozero(e - 1)],
          z3.And(st0(s, 0), en0(f, n)), "a maximal run of a grapheme is one of the text")


def idempotent(u):
    """Decomposing the composition of Y (decomposed, in canonical order) and ordering it gives Y again.

    The decomposition of the first k steps' result is Y[PI(k, 0)], Y[PI(k, 1)], ...: merging y into the last starter puts y behind
    that starter's decomposition (a composite has the decomposition of its pair), so before the elements kept since.
    Shown: two elements are out of order only if both are marks, no codepoint of class zero lies between them in Y, and
    the one in front has the higher class.  So the stable sort of every run moves exactly these, back to Y."""
    import order
    from p_props import CCC
    ex = u.ex
    ex.comps, ex.sorts = [], []
    Y = z3.Const("Y", ARR)
    n, k, p, p1, p2, t = z3.Ints("n k p p1 p2 t")
    W = order.Comp(ex, Y, n)
    PI = z3.Function("source", z3.IntSort(), z3.IntSort(), z3.IntSort())
    cc = lambda i: CCC(z3.Select(Y, i))
    cls = lambda *xs: [z3.ULE(cc(x), 254) for x in xs]
    behind = lambda k: k - (W.L(k) - W.S(k) - 1)
    place = z3.If(W.merges(k), behind(k), k)
    step = lambda q: [PI(k + 1, q) == z3.If(q < place, PI(k, q), z3.If(q == place, k, PI(k, q - 1)))]

    def kept(k, p, t):
        m = PI(k, p)
        return z3.And(0 <= W.L(k), W.L(k) <= k, -1 <= W.S(k), W.S(k) < W.L(k), z3.ULE(W.C(k), 254), z3.Implies(W.S(k) < 0, W.L(k) == k),
                      z3.Implies(z3.And(0 <= p, p < k), z3.And(0 <= m, m < k)),
                      z3.Implies(W.L(k) > W.S(k) + 1, z3.And(k > 0, cc(k - 1) != 0, z3.UGE(cc(k - 1), W.C(k)))),
                      z3.Implies(z3.And(behind(k) <= p, p < k), z3.And(cc(m) != 0, z3.ULE(cc(m), W.C(k)), z3.Implies(z3.And(m <= t, t < k), cc(t) != 0))))

    def swapped(k, p1, p2, t):
        a, b = PI(k, p1), PI(k, p2)
        return z3.Implies(z3.And(0 <= p1, p1 < p2, p2 < k, a > b),
                          z3.And(cc(b) != 0, z3.UGT(cc(a), cc(b)), z3.Implies(z3.And(b <= t, t <= a), cc(t) != 0)))
    ordered = [z3.Implies(k > 0, z3.Or(cc(k) == 0, cc(k - 1) == 0, z3.ULE(cc(k - 1), cc(k))))]
    base = [0 <= k, k < n] + W.facts(k) + ordered
    prove(u, base + cls(k, k - 1, t) + step(p) + [kept(k, p, t), kept(k, p - 1, t), kept(k, p, k - 1), kept(k, p - 1, k - 1)], kept(k + 1, p, t),
          "the elements kept behind the last starter are marks in ascending order, step")
    prove(u, W.base(), kept(z3.IntVal(0), p, t), "the elements kept behind the last starter are marks in ascending order, start")
    qs = [(a, b) for a in (p1, p1 - 1) for b in (p2, p2 - 1)]
    prove(u, base + cls(k, k - 1, t) + step(p1) + step(p2) + [kept(k, q, t) for q in (p1, p1 - 1, p2, p2 - 1)] + [swapped(k, a, b, t) for a, b in qs],
          swapped(k + 1, p1, p2, t), "decomposing what was composed is undone by the canonical ordering, step")
    prove(u, [], swapped(z3.IntVal(0), p1, p2, t), "decomposing what was composed is undone by the canonical ordering, start")
