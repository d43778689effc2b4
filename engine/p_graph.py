"""C10-C13: grapheme segmentation."""
import z3
from symex import *
from texts import *
from proof import unit
import cont, upper, ucd, lemmas, p_utf8, p_props

SUF = ["u8s", "u8v", "u32s", "u32v"]
_ev = {}


def setup(u, n=None, fixed=None):
    ex = u.ex
    cont.install(ex)
    if id(u.mod) not in _ev:
        _ev[id(u.mod)] = upper.enums(u.mod)
    ev = _ev[id(u.mod)]
    upper.install(ex, ev)
    T = Text("T", n, fixed)
    ex.texts.append(T)
    upper.install_iter(ex)
    st = St()
    st.pc += T.facts()
    ex.named.append(("T.n", T.n)) if n is None else None
    seg = upper.Seg(ex, T, ev)
    return ex, st, T, seg, ev


def text_obj(ex, st, T, suf):
    return text8_obj(ex, st, T) if suf.startswith("u8") else text32_obj(ex, st, T)


def P(o, i, k=0):
    return Ptr(o.id, (i, k)) if o.kind == "u8text" else Ptr(o.id, i)


def on(p, o, i):
    """p is on codepoint i (any octet of it)"""
    if not isinstance(p, Ptr) or p.obj != o.id:
        return False
    return zb(ieq(cont.pos(p), i))


def cells(ex, st, n, name):
    o = ex.new_obj("cells", name, n)
    st.mem[o.id] = {}
    return Ptr(o.id, 0)


def run(ex, outs, fn, args):
    """chain a call on every outcome of the previous one"""
    r = []
    for s, _ in outs:
        r += ex.call(fn, args(s) if callable(args) else args, s)
    return r


def cell(s, p):
    c = s.mem[p.obj].get(p.off)
    return c[1] if c else UNDEF


def gi(ex, st, suf, name="it"):
    n = ex.call("vp_gsize_" + suf, [], St())[0][1].e
    return cells(ex, st, n, name)


def get(ex, outs, suf, g):
    """[(state, begin, end)] of the designated grapheme"""
    r = []
    for s, _ in outs:
        b, e = cells(ex, s, 8, "gb"), cells(ex, s, 8, "ge")
        for s2, _ in ex.call("vp_gget_" + suf, [g, b, e], s):
            r.append((s2, cell(s2, b), cell(s2, e)))
    return r


def span(ex, u, outs, o, b, e, what):
    """obligations: the designated span; b index; e: index or function of the end index -> formula"""
    for s, x, y in outs:
        ex.prove(s, on(x, o, b) if not callable(b) else (b(zint(cont.pos(x))) if isinstance(x, Ptr) and x.obj == o.id else False),
                 what + ": start")
        if callable(e):
            ex.prove(s, e(zint(cont.pos(y))) if isinstance(y, Ptr) and y.obj == o.id else False, what + ": end")
        else:
            ex.prove(s, on(y, o, e), what + ": end")


def ranged(ex, st, *idx):
    """0 <= i0 <= i1 ... """
    for a, b in zip(idx, idx[1:]):
        st.pc.append(zint(a) <= zint(b))


def pair(suf):
    def f(u):
        a, b = z3.BitVecs("a b", 32)
        ex, st, T, seg, ev = setup(u, 2, [a, b])
        ex.named += [("a", a), ("b", b)]
        T.T = z3.Store(z3.Store(T.T, 0, a), 1, b)
        st.pc += [scalar(a), scalar(b)]
        o = text_obj(ex, st, T, suf)
        r = cells(ex, st, 8, "result")
        rs = ex.call("vp_pair_" + suf, [P(o, 0), P(o, 2), r], st)
        want = upper.brk(ev, a, b)
        for s, v in u.returns(rs):
            p = cell(s, r)
            ok = isinstance(p, Ptr) and p.obj == o.id
            ex.prove(s, (zint(cont.pos(p)) == 1) == want if ok else False, "the first grapheme ends between the two exactly at a boundary")
            ex.prove(s, z3.Or(zint(cont.pos(p)) == 1, zint(cont.pos(p)) == 2) if ok else False, "the first grapheme ends after one or two codepoints")
    return f


def range_of(ex, st, T, names="b e"):
    b, e = z3.Ints(names)
    st.pc += [b >= 0, b <= e, e <= zint(T.n)]
    ex.named += [("b", b), ("e", e)]
    return b, e


def string_with(ex, st, T, suf):
    """an encoded string object whose content is the text; (state, pointer, object the positions are in)"""
    es = cells(ex, st, 64, "string")
    if suf == "u8s":
        src, c = cont.string_obj(ex, st, 1, (("text", T, (0, 0), (T.n, 0)),), "native")
        rs = ex.call("vp_mk_u8s", [es, src], st)
    elif suf == "u32s":
        src, c = cont.string_obj(ex, st, 4, (("arr", T.T, 0, T.n),), "native")
        rs = ex.call("vp_mk_u32s", [es, src], st)
    else:
        o = text_obj(ex, st, T, suf)
        n = IT(64, T.OFF(zint(T.n))) if suf == "u8v" else IT(64, T.n)
        rs = ex.call("vp_mk_" + suf, [es, P(o, 0), n], st)
    return rs, es


def tobj(ex, p, T):
    """p points into the text T: its object"""
    if isinstance(p, Ptr):
        o = ex.objs[p.obj]
        return o
    return None


def begin_end(suf):
    def f(u):
        ex, st, T, seg, ev = setup(u)
        rs, es = string_with(ex, st, T, suf)
        for which in ("begin", "end"):
            for s0, _ in rs:
                s = s0.copy()
                g = gi(ex, s, suf)
                outs = ex.call("vp_%s_%s" % (which, suf), [es, g], s)
                res = get(ex, outs, suf, g)
                u.returns([(s2, None) for s2, x, y in res], which)
                for s2, x, y in res:
                    ok = isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and text_view(ex, s2, x.obj, T)
                    ex.prove(s2, ok, which + ": the positions are in the content of the string")
                    if not ok:
                        continue
                    xi, yi = zint(cont.pos(x)), zint(cont.pos(y))
                    if which == "begin":
                        ex.prove(s2, xi == 0, "iteration starts at the beginning")
                        ex.prove(s2, z3.If(T.n == 0, yi == 0, seg.next_end(0, yi, T.n)), "the first grapheme ends at the first boundary")
                    else:
                        ex.prove(s2, z3.And(xi == T.n, yi == T.n), "the end iterator is at the end")
    return f


def text_view(ex, st, oid, T):
    o = ex.objs[oid]
    if o.text is T:
        return True
    # content of a string<int>: the same array
    return o.kind == "arr" and oid in st.mem and st.mem[oid][0].eq(T.T)


def two(suf):
    """the iterator over a range starts at its first grapheme"""
    def f(u):
        ex, st, T, seg, ev = setup(u)
        o = text_obj(ex, st, T, suf)
        b, e = range_of(ex, st, T)
        ex.extra_idx.append((o.id, e))
        g = gi(ex, st, suf)
        outs = ex.call("vp_g2_" + suf, [g, P(o, b), P(o, e)], st)
        res = get(ex, outs, suf, g)
        u.returns([(s, None) for s, x, y in res])
        span(ex, u, res, o, b, lambda y: z3.If(b == e, y == e, seg.next_end(b, y, e)), "first grapheme of the range")
    return f


def incr(suf, op):
    def f(u):
        ex, st, T, seg, ev = setup(u)
        o = text_obj(ex, st, T, suf)
        b, e = range_of(ex, st, T)
        w, we = z3.Ints("w we")
        ex.named += [("w", w), ("we", we)]
        st.pc += [b <= w, w < we, we <= e]
        g, g2 = gi(ex, st, suf), gi(ex, st, suf, "result")
        outs = ex.call("vp_g4_" + suf, [g, P(o, b), P(o, e), P(o, w), P(o, we)], st)
        outs = run(ex, outs, "vp_%s_%s" % (op, suf), [g, g2])
        new = lambda y: z3.If(we == e, y == e, seg.next_end(we, y, e))
        a = get(ex, outs, suf, g)
        u.returns([(s, None) for s, x, y in a])
        span(ex, u, a, o, we, new, "after increment the iterator is on the next grapheme")
        r = get(ex, [(s, None) for s, x, y in a], suf, g2)
        if op == "gpre":
            span(ex, u, r, o, we, new, "prefix increment returns the new position")
        else:
            span(ex, u, r, o, w, we, "postfix increment returns the previous position")
        # the returned iterator goes on like the original
        nx = run(ex, [(s, None) for s, x, y in r], "vp_gpre_" + suf, [g2, gi(ex, st, suf, "unused")] if False else (lambda s: [g2, gi(ex, s, suf, "next")]))
        for s, x, y in get(ex, nx, suf, g2):
            ex.prove(s, zint(cont.pos(x)) >= (we if op == "gpost" else zint(we)), "the returned iterator can be advanced")
    return f


def three(suf, k=0):
    def f(u):
        ex, st, T, seg, ev = setup(u)
        o = text_obj(ex, st, T, suf)
        b, e = range_of(ex, st, T)
        w = z3.Int("w")
        ex.named += [("w", w)]
        st.pc += [b <= w, w <= e] if not k else [b <= w, w < e]
        if k:
            st.pc.append(z3.UGE(T.cp(w), [0, 0x80, 0x800, 0x10000][k]))
            st.pc.append(scalar(T.cp(w)))
        ex.extra_idx += [(o.id, e), (o.id, w), (o.id, b)]
        g = gi(ex, st, suf)
        outs = ex.call("vp_g3_" + suf, [g, P(o, b), P(o, e), P(o, w, k)], st)
        res = get(ex, outs, suf, g)
        u.returns([(s, None) for s, x, y in res])
        span(ex, u, res, o,
             lambda x: z3.If(w == e, x == e, z3.And(b <= x, x <= w, seg.BC(x) == seg.BC(w), z3.Or(x == b, seg.B(x)))),
             lambda y: z3.If(w == e, y == e, seg.next_end(w, y, e)), "the grapheme that contains the position")
        if k:
            return
        # it is over the range: the next increments work up to its end
        n = gi(ex, st, suf, "next")
        for s, x, y in get(ex, run(ex, [(s, None) for s, x, y in res if ex.feasible(s, cont.pos(y) < e)], "vp_gpre_" + suf,
                                   lambda s: [g, gi(ex, s, suf, "next")]), suf, g):
            ex.prove(s, z3.And(zint(cont.pos(x)) <= e, zint(cont.pos(y)) <= e), "the iterator is over the given range")
    return f


def four(suf):
    def f(u):
        ex, st, T, seg, ev = setup(u)
        o = text_obj(ex, st, T, suf)
        b, e = range_of(ex, st, T)
        w, we = z3.Ints("w we")
        ex.named += [("w", w), ("we", we)]
        st.pc += [b <= w, w <= we, we <= e]
        g = gi(ex, st, suf)
        outs = ex.call("vp_g4_" + suf, [g, P(o, b), P(o, e), P(o, w), P(o, we)], st)
        res = get(ex, outs, suf, g)
        u.returns([(s, None) for s, x, y in res])
        span(ex, u, res, o, w, we, "explicit start and end are kept")
        h = gi(ex, st, suf, "copy")
        outs = [(s, None) for s, x, y in res]
        r2 = []
        for s, _ in outs:
            h = gi(ex, s, suf, "copy")
            r2 += get(ex, ex.call("vp_gcopy_" + suf, [h, g], s), suf, h)
        span(ex, u, r2, o, w, we, "a copy designates the same grapheme")
    return f


def mkseg(ex, st, b, e, s, t, n):
    """[s, t) is a grapheme position of the range [b, e): non-empty, or the end"""
    ex.named += [(n + "s", s), (n + "t", t)]
    st.pc += [b <= s, t <= e, z3.Or(s < t, z3.And(s == e, t == e))]


def eqc(suf, op, k=0):
    def f(u):
        ex, st, T, seg, ev = setup(u)
        o = text_obj(ex, st, T, suf)
        b, e = range_of(ex, st, T)
        s1, t1, p = z3.Ints("s1 t1 p")
        mkseg(ex, st, b, e, s1, t1, "g")
        ex.named.append(("p", p))
        st.pc += [b <= p, p <= e] if not k else [b <= p, p < e]
        if k:
            st.pc.append(z3.UGE(T.cp(p), [0, 0x80, 0x800, 0x10000][k]))
            st.pc.append(scalar(T.cp(p)))
        ex.extra_idx += [(o.id, p), (o.id, t1), (o.id, e)]
        g = gi(ex, st, suf)
        outs = ex.call("vp_g4_" + suf, [g, P(o, b), P(o, e), P(o, s1), P(o, t1)], st)
        outs = run(ex, outs, "vp_%s_%s" % (op, suf), [g, P(o, p, k)])
        want = z3.Or(p == s1, z3.And(s1 <= p, p < t1))
        for s, v in u.returns(outs):
            ex.prove(s, zbool(v) == (want if op == "geqc" else z3.Not(want)) if isinstance(v, BV) else False,
                     "grapheme and codepoint iterator are %s exactly when it is %s its grapheme" % (("equal", "in") if op == "geqc" else ("unequal", "not in")))
        span(ex, u, get(ex, outs, suf, g), o, s1, t1, "comparing does not change the iterator")
    return f


def eqg(suf, op):
    def f(u):
        ex, st, T, seg, ev = setup(u)
        o = text_obj(ex, st, T, suf)
        b, e = range_of(ex, st, T)
        s1, t1, s2, t2 = z3.Ints("s1 t1 s2 t2")
        mkseg(ex, st, b, e, s1, t1, "g")
        mkseg(ex, st, b, e, s2, t2, "h")
        # two graphemes of one text are the same or apart
        st.pc.append(z3.Or(z3.And(s1 == s2, t1 == t2), t1 <= s2, t2 <= s1))
        ex.extra_idx += [(o.id, t) for t in (s1, t1, s2, t2, e)]
        g, h = gi(ex, st, suf), gi(ex, st, suf, "other")
        outs = ex.call("vp_g4_" + suf, [g, P(o, b), P(o, e), P(o, s1), P(o, t1)], st)
        outs = run(ex, outs, "vp_g4_" + suf, [h, P(o, b), P(o, e), P(o, s2), P(o, t2)])
        outs = run(ex, outs, "vp_%s_%s" % (op, suf), [g, h])
        want = s1 == s2
        for s, v in u.returns(outs):
            ex.prove(s, zbool(v) == (want if op == "geqg" else z3.Not(want)) if isinstance(v, BV) else False,
                     "grapheme iterators are %s exactly when on the %s grapheme" % (("equal", "same") if op == "geqg" else ("unequal", "another")))
        a = get(ex, outs, suf, g)
        span(ex, u, a, o, s1, t1, "comparing does not change the left operand")
        span(ex, u, get(ex, [(s, None) for s, x, y in a], suf, h), o, s2, t2, "comparing does not change the right operand")
    return f


def segmentation(prop):
    p_utf8.callee_units(prop)
    unit(prop, "lemmas: boundaries", "graph", lemmas.counts)
    for suf in SUF:
        unit(prop, "grapheme_begin, grapheme_end, " + suf, "graph", begin_end(suf))
        unit(prop, "first grapheme of a range, " + suf, "graph", two(suf))
        for op in ("gpre", "gpost"):
            unit(prop, "%s increment, %s" % (op, suf), "graph", incr(suf, op))


segmentation("C11")
for prop in ("C10", "C12", "C13"):
    p_utf8.callee_units(prop)
    if prop != "C10":
        unit(prop, "lemmas: boundaries", "graph", lemmas.counts)
for suf in SUF:
    ks = range(4) if suf.startswith("u8") else (0,)
    unit("C10", "boundary between two codepoints, " + suf, "graph", pair(suf))
    for k in ks:
        unit("C12", "grapheme at a position, %s octet %d" % (suf, k), "graph", three(suf, k))
    unit("C12", "explicit start and end, " + suf, "graph", four(suf))
    for op in ("geqc", "gnec"):
        for k in ks:
            unit("C13", "%s %s octet %d" % (op, suf, k), "graph", eqc(suf, op, k))
    for op in ("geqg", "gneg"):
        unit("C13", "%s %s" % (op, suf), "graph", eqg(suf, op))
for prop in ("C10", "C11", "C12"):
    p_props.lookups(prop, "C09")
