"""C18-C26: filters, decomposition, ordering, composition, normal forms,
conversion, append, string wrappers."""
import re
import z3
from symex import *
from texts import *
from proof import unit
import known, symex, cont, upper, ucd, lemmas, p_utf8, p_graph
from cont import HAS, MAP, MLEN, B32, INT, PS
from p_graph import cells, cell, P, on, run, range_of
from p_props import CCC
from upper import HASCMP, COMPF

_ev = {}


def base(u, enum=False, texts=True):
    ex = u.ex
    cont.install(ex)
    ev = None
    if enum:
        if id(u.mod) not in _ev:
            _ev[id(u.mod)] = upper.enums(u.mod)
        ev = _ev[id(u.mod)]
    upper.install(ex, ev)
    upper.install_iter(ex)
    return ex, St(), ev


def text(ex, st, name="T"):
    T = Text(name)
    ex.texts.append(T)
    st.pc += T.facts()
    ex.named.append((name + ".n", T.n))
    return T


def init_rope(ex, st, name="before"):
    n = z3.Int(name + ".len")
    st.pc.append(n >= 0)
    return (("init", name, n),)


def out_string(ex, st, kind, rope, name="out"):
    """an encoded string object with the given content: [(state)], pointer, native getter"""
    esz = 1 if kind == "u8" else 4
    es = cells(ex, st, 64, name)
    src, c = cont.string_obj(ex, st, esz, rope, name + ".native")
    rs = ex.call("vp_mk_%ss" % kind, [es, src], st)
    return rs, es


def native(ex, s, fn, es):
    """[(state, container id)]"""
    r = []
    for s2, v in ex.call(fn, [es], s):
        cid = cont.cont_at(ex, s2, v)
        if cid is None:
            raise Unsupported("the native string of an encoded string is not a string object")
        r.append((s2, cid))
    return r


def is_rope(ex, s, cid, want, name):
    got = cont.content(ex, s, cid)
    ok = cont.rope_eq(ex, s, got, want)
    ex.prove(s, True if ok else False, name, info=None if ok else "content %s, expected %s" % (show(got), show(want)))
    return ok


def show(r):
    return "[" + ", ".join("(" + ", ".join(str(x)[:60] for x in s) + ")" for s in r)[:400] + "]"


# -- C18 ---------------------------------------------------------------
def decomp(kind):
    fn = {"canon": "vp_dec_c", "compat": "vp_dec_k"}[kind]

    def f(u):
        ex, st, _ = base(u)
        c = z3.BitVec("c", 32)
        ex.named.append(("c", c))
        pre = init_rope(ex, st)
        rs, es = out_string(ex, st, "u32", pre)
        outs = []
        for s, _ in rs:
            outs += ex.call(fn, [BV(32, c), es], s)
        for s, v in u.returns(outs):
            for s2, cid in native(ex, s, "vp_nat_u32s", es):
                is_rope(ex, s2, cid, pre + (("app", kind, c),), "exactly the decomposition, or the codepoint itself, is appended")
            s.pc += cont.flen_facts(kind, c)
            ex.prove(s, zint(itval(v)) == cont.flen(kind, c) if isinstance(v, (BV, IT)) else False,
                     "the number of codepoints appended is returned")
    return f


unit("C18", "canonical_decomposition", "norm", decomp("canon"))
unit("C18", "compatibility_and_canonical_decomposition", "norm", decomp("compat"))


# -- C23 ---------------------------------------------------------------
RETF = {}


def op_model(T, obj, outp, grapheme):
    """the operation: any function; called for the t-th time it returns RET(t)"""
    RET = z3.Function("ret", INT, INT)
    SUM = z3.Function("retsum", INT, INT)

    def m(ex, st, f, args, x):
        if not re.match(r"^vp_op_", f.name):
            return None
        t = st.ghost.get(("int", "calls"), z3.IntVal(0))
        ex.prove(st, isinstance(args[-1], Ptr) and args[-1].obj == outp.obj and args[-1].off == 0, "the operation gets the caller's output object", ex.loc(x))
        at = z3.Function("at", INT, INT)
        if grapheme is None:
            v = args[0]
            ex.prove(st, zbv(v) == T.cp(z3.simplify(op_model.b + t)) if isinstance(v, BV) else False,
                     "call number t gets element number t", ex.loc(x))
        else:
            b, e = args[0], args[1]
            pos = st.ghost.get(("int", "pos"), op_model.b)
            ok = isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == obj.id and e.obj == obj.id
            ex.prove(st, on(b, obj, pos) if ok else False, "each call gets the grapheme after the previous one", ex.loc(x))
            ex.prove(st, grapheme(pos, zint(cont.pos(e))) if ok else False, "each call gets a whole grapheme", ex.loc(x))
            if ok:
                st.ghost[("int", "pos")] = zint(cont.pos(e))
        st.ghost[("int", "calls")] = z3.simplify(t + 1)
        st.pc += [SUM(0) == 0, SUM(z3.simplify(t + 1)) == SUM(t) + RET(t)]
        ex.used_contracts.add("the operation (any function)")
        return [(st, IT(32, RET(t)))]
    return m, SUM


def sum_cands(SUM):
    def g(ex, st, entry, kinds, ptrs, cnts, bvs, arrs, rope_choice):
        out = []
        gl = [l for l, k in kinds.items() if k[0] == "gint" and l[1][1] == "calls"]
        pl = [l for l, k in kinds.items() if k[0] == "gint" and l[1][1] == "pos"]
        for l in gl:
            for cl, k in cnts:
                c0 = cont.cval(entry.get(cl))
                if c0 is None:
                    continue

                def f(vals, s, l=l, cl=cl, c0=c0, e=entry[l]):
                    c = cont.cval(vals.get(cl))
                    return None if c is None else c - c0 == SUM(vals[l]) - SUM(e)
                out.append(("counter is the sum of the results", f))
        for l in pl:
            for il, k in ptrs:
                def f(vals, s, l=l, il=il):
                    v = vals.get(il)
                    return zint(cont.pos(v)) == vals[l] if isinstance(v, Ptr) else None
                out.append(("the calls have reached the index", f))
        return out
    return g


def filt(suf, how):
    def f(u):
        g = how == "fg"
        ex, st, ev = base(u, enum=True)
        T = text(ex, st)
        seg = upper.Seg(ex, T, ev) if g else None
        o = p_graph.text_obj(ex, st, T, suf)
        b, e = range_of(ex, st, T)
        ex.extra_idx += [(o.id, e), (o.id, b)]
        out = cells(ex, st, 32, "output")
        marks = {k: (8, BV(64, z3.BitVec("out%d" % k, 64))) for k in (0, 8, 16, 24)}
        st.mem[out.obj] = dict(marks)
        op_model.b = b
        st.ghost[("int", "calls")] = z3.IntVal(0)
        if g:
            st.ghost[("int", "pos")] = b
            spec = lambda p, y: seg.next_end(p, y, e)
            m, SUM = op_model(T, o, out, spec)
            seg.pairs = e
            we = z3.Int("we")
            ex.named.append(("we", we))
            seg.hook(ex, st, b)
            st.pc.append(z3.If(b == e, we == e, seg.next_end(b, we, e)))
            ex.extra_idx.append((o.id, we))
            args = [P(o, b), P(o, e), P(o, b), P(o, we), P(o, e), P(o, e), out]
        else:
            m, SUM = op_model(T, o, out, None)
            args = [P(o, b), P(o, e), out]
        st.pc.append(SUM(0) == 0)
        ex.models.insert(0, m)
        ex.cand_gens.append(sum_cands(SUM))
        rs = ex.call("vp_%s_%s" % (how, suf), args, st)
        for s, v in u.returns(rs):
            t = s.ghost[("int", "calls")]
            if g:
                ex.prove(s, s.ghost[("int", "pos")] == e, "every element is passed to the operation")
            else:
                ex.prove(s, t == e - b, "every element is passed to the operation")
            ex.prove(s, zint(itval(v)) == SUM(t) if isinstance(v, (BV, IT)) else False, "the sum of the results is returned")
            ex.prove(s, all(s.mem[out.obj].get(k) == c for k, c in marks.items()) and len(s.mem[out.obj]) == len(marks),
                     "nothing else writes to the output")
    return f


for suf in p_graph.SUF:
    for how in ("fc", "fo", "fg"):
        unit("C23", {"fc": "filter over codepoints, function", "fo": "filter over codepoints, functor", "fg": "filter over graphemes"}[how] + ", " + suf,
             "filter", filt(suf, how))
p_utf8.callee_units("C23")
unit("C23", "lemmas: boundaries", "filter", lemmas.counts)


# -- C24 ---------------------------------------------------------------
def arr32(ex, st, name="src"):
    T = Text(name)
    ex.texts.append(T)
    st.pc.append(T.n >= 0)
    ex.named.append((name + ".n", T.n))
    return T, text32_obj(ex, st, T)


def from32(src, out):
    def f(u):
        ex, st, _ = base(u)
        T, o = arr32(ex, st)
        b, e = range_of(ex, st, T)
        ex.extra_idx += [(o.id, e)]
        pre = init_rope(ex, st)
        rs, es = out_string(ex, st, out, pre)
        outs = []
        for s, _ in rs:
            outs += ex.call("vp_from32_%s_%s" % (src, out), [es, P(o, b), P(o, e)], s)
        for s, v in u.returns(outs):
            ex.prove(s, isinstance(v, Ptr) and v.obj == es.obj and v.off == es.off, "the string itself is returned")
            for s2, cid in native(ex, s, "vp_nat_" + out, es):
                seg = ("fold", "enc8", T.T, b, e) if out == "u8" else ("arr", T.T, b, e)
                is_rope(ex, s2, cid, pre + (seg,), "exactly the encoding of each codepoint is appended, in order")
    return f


for src in "sve":
    for out in ("u8", "u32"):
        unit("C24", "append_from_utf32ne %s to %s" % (src, out), "append", from32(src, out))


unit("C24", "lemmas: lengths", "append", lemmas.sizes)
p_utf8.callee_units("C24")      # what reads the appended part back


# -- C25 ---------------------------------------------------------------
def own_string(ex, st, kind, T):
    """an encoded string whose content is the text: [(state, pointer)], pointer to it, rope"""
    u8 = kind == "u8"
    pre = (("text", T, (0, 0), (T.n, 0)),) if u8 else (("arr", T.T, 0, T.n),)
    rs, es = out_string(ex, st, kind, pre)
    out = []
    for s, _ in rs:
        for s2, cid in native(ex, s, "vp_nat_" + kind, es):
            out.append((s2, cont.view(ex, s2, cid)[0]))
    return out, es, pre


def app(fn, suf, k=0, l=0, g=False, own=False):
    u8 = suf.startswith("u8")

    def f(u):
        ex, st, ev = base(u)
        T = text(ex, st)
        o = None if own else p_graph.text_obj(ex, st, T, suf)
        b, e = z3.Ints("first last")
        ex.named += [("first", b), ("last", e)]
        st.pc += [b >= 0, b <= e, e <= T.n]
        for i, x in ((b, k), (e, l)):
            if x:
                st.pc += [i < T.n, z3.UGE(T.cp(i), [0, 0x80, 0x800, 0x10000][x])]
            st.pc.append(z3.Implies(i < T.n, scalar(T.cp(i))))
        kind = "u8" if u8 else "u32"
        if own:
            rs, es, pre = own_string(ex, st, kind, T)
            if len(rs) != 1:
                raise Unsupported("several ways to construct a string")
            (st, o), = rs
        else:
            pre = init_rope(ex, st)
            rs, es = out_string(ex, st, kind, pre)
        args = [P(o, b, k), P(o, e, l)]
        if g:
            tb, te = z3.Ints("tb te")
            st.pc += [zint(0) <= tb, tb <= b, e <= te, te <= T.n]
            w1, w2 = z3.Ints("w1 w2")
            st.pc += [b <= w1, w1 <= te, e <= w2, w2 <= te]
            args = [P(o, tb), P(o, te), P(o, b), P(o, w1), P(o, e), P(o, w2)]
        if u8 and known.finding("C25", "native-position-at-end"):
            # the octet at the end of the text: known finding C25, see KNOWN_FINDINGS.txt
            # (a terminating NUL, the lead octet of what follows, or a stray octet: never a continuation octet)
            ex.end_octet = (o.id, BV(8, z3.BitVec("octet_at_end", 8)))
            st.pc.append(z3.Extract(7, 6, z3.BitVec("octet_at_end", 8)) != 2)
        outs = []
        for s, _ in rs:
            outs += ex.call("vp_%s_%s" % (fn, suf), [es] + args, s)
        for s, v in u.returns(outs):
            ex.prove(s, isinstance(v, Ptr) and v.obj == es.obj and v.off == es.off, "the string itself is returned")
            for s2, cid in native(ex, s, "vp_nat_" + kind, es):
                seg = ("text", T, (b, 0), (e, 0)) if u8 else ("arr", T.T, b, e)
                is_rope(ex, s2, cid, pre + (seg,), "exactly the codepoints of the range are appended")
        if ex.end_octet_read:
            kf = known.finding("C25", "native-position-at-end")
            if kf not in u.known:
                u.known.append(kf)
    return f


for suf in p_graph.SUF:
    for fn, g, sfs in (("app", False, p_graph.SUF), ("appg", True, p_graph.SUF), ("appn", False, ("u8s", "u32s")), ("appng", True, ("u8s", "u32s"))):
        if suf not in sfs:
            continue
        for k in range(4) if suf.startswith("u8") else (0,):
            for l in range(4) if suf.startswith("u8") else (0,):
                if g and (k or l):
                    continue
                unit("C25", "append %s range, %s, %s octets %d %d" % ("grapheme" if g else "codepoint", suf, "same type" if fn.startswith("appn") else "any type", k, l),
                     "append", app(fn, suf, k, l, g))
                if suf[-1] == "s" and k == l:
                    unit("C25", "append %s range of the string itself, %s, %s octets %d %d" % ("grapheme" if g else "codepoint", suf, "same type" if fn.startswith("appn") else "any type", k, l),
                         "append", app(fn, suf, k, l, g, True))


# -- C26 ---------------------------------------------------------------
def source(ex, st, T, suf, kind, name="source"):
    """a native string / view with the text as its content: (pointer, check(state) -> unchanged?)"""
    if suf[-1] == "s":
        esz = 1 if suf == "u8s" else 4
        rope = (("text", T, (0, 0), (T.n, 0)),) if esz == 1 else (("arr", T.T, 0, T.n),)
        if kind == "opaque":
            rope = init_rope(ex, st, name)
        p, c = cont.string_obj(ex, st, esz, rope, name)

        def same(s):
            cid = cont.cont_at(ex, s, p)
            return cid is not None and cont.rope_eq(ex, s, cont.content(ex, s, cid), rope)
        return p, rope, same
    o = text_obj(ex, st, T, suf)
    n = IT(64, T.OFF(zint(T.n))) if suf == "u8v" else IT(64, T.n)
    p = cells(ex, st, 16, name)
    rs = ex.call("vp_view_" + suf, [p, P(o, 0), n], st)
    assert len(rs) == 1
    before = dict(rs[0][0].mem[p.obj])
    st.mem = rs[0][0].mem
    st.pc = rs[0][0].pc

    def same(s):
        return symex.same_mem({0: s.mem[p.obj]}, {0: before})
    return p, (o, n), same


def text_obj(ex, st, T, suf):
    return p_graph.text_obj(ex, st, T, suf)


def has(ex, s, suf, p, want, name):
    """the native string at p has the wanted content"""
    if suf[-1] == "s":
        cid = cont.cont_at(ex, s, p)
        if cid is None:
            ex.prove(s, False, name)
            return
        is_rope(ex, s, cid, want, name)
        return
    o, n = want
    for s2, b in ex.call("vp_vdata_" + suf, [p], s.copy()):
        ex.prove(s2, on0(b, o), name + ": start")
    for s2, b in ex.call("vp_vsize_" + suf, [p], s.copy()):
        ex.prove(s2, zint(itval(b)) == zint(itval(n)) if isinstance(b, (BV, IT)) else False, name + ": length")


def on0(p, o):
    return isinstance(p, Ptr) and p.obj == o.id and (p.off == (0, 0) or (not isinstance(p.off, tuple) and ieq(p.off, 0) is True))


def wrap_copy(suf, how, self=False):
    def f(u):
        ex, st, _ = base(u)
        T = text(ex, st)
        src, want, same = source(ex, st, T, suf, "opaque")
        a = cells(ex, st, 64, "a")
        rs = ex.call("vp_from_" + suf, [a, src], st)
        d, back = a, None
        if how == "copy":
            d = cells(ex, st, 64, "b")
            rs = [z for s, _ in rs for z in ex.call("vp_copy_" + suf, [grow(ex, s, d), a], s)]
        if how == "assign":
            T2 = text(ex, st, "U")
            if not self:
                for s, _ in rs:
                    pass
                src2, want2, same2 = source(ex, rs[0][0], T2, suf, "opaque", "other")
                d = cells(ex, rs[0][0], 64, "b")
                rs = [z for s, _ in rs for z in ex.call("vp_from_" + suf, [d, src2], s)]
            rs = [z for s, _ in rs for z in ex.call("vp_assign_" + suf, [d, a], s)]
        outs = u.returns(rs)
        for s, v in outs:
            ex.prove(s, same(s), "the source is left alone")
            for s2, n in ex.call("vp_nat_" + suf, [d], s):
                has(ex, s2, suf, n, want, "the content is exactly the source's")
            if how in ("copy", "assign"):
                for s2, n in ex.call("vp_nat_" + suf, [a], s):
                    has(ex, s2, suf, n, want, "the source string is left alone")
                if suf[-1] == "s" and not self:
                    i1 = [cont.cont_at(ex, s, n) for s2, n in ex.call("vp_nat_" + suf, [a], s)]
                    i2 = [cont.cont_at(ex, s, n) for s2, n in ex.call("vp_nat_" + suf, [d], s)]
                    ex.prove(s, i1 != i2, "the copy has its own content")
            if how == "assign":
                ex.prove(s, isinstance(v, Ptr) and v.obj == d.obj and v.off == d.off, "the assigned string is returned")
    return f


def grow(ex, s, p):
    if p.obj not in s.mem:
        s.mem[p.obj] = {}
    return p


def wrap_dflt(suf):
    def f(u):
        ex, st, _ = base(u)
        a = cells(ex, st, 64, "a")
        for s, _ in u.returns(ex.call("vp_dflt_" + suf, [a], st)):
            for s2, n in ex.call("vp_nat_" + suf, [a], s):
                if suf[-1] == "s":
                    has(ex, s2, suf, n, (), "a default constructed string is empty")
                else:
                    for s3, b in ex.call("vp_vsize_" + suf, [n], s2):
                        ex.prove(s3, isinstance(b, BV) and isint(b.e) and b.e == 0, "a default constructed view is empty")
    return f


POS = [("nb", "native_begin", 0), ("ne", "native_end", 1), ("ncb", "native_cbegin", 0), ("nce", "native_cend", 1),
       ("cb", "codepoint_begin", 0), ("ce", "codepoint_end", 1), ("ccb", "codepoint_cbegin", 0), ("cce", "codepoint_cend", 1)]


def content_view(ex, s, suf, a, T, want):
    """(object, begin, end) of the content of the encoded string"""
    (s2, n), = ex.call("vp_nat_" + suf, [a], s)
    if suf[-1] == "s":
        return cont.view(ex, s, cont.cont_at(ex, s, n))
    o = want[0]
    return o, P(o, 0), P(o, T.n)


def same_ptr(a, b):
    return isinstance(a, Ptr) and a.obj == b.obj and (
        (a.off[1] == b.off[1] and zb(ieq(a.off[0], b.off[0]))) if isinstance(b.off, tuple) else zb(ieq(a.off, b.off)))


def wrap_pos(suf):
    def f(u):
        ex, st, ev = base(u, enum=True)
        T = text(ex, st)
        seg = upper.Seg(ex, T, ev)
        src, want, same = source(ex, st, T, suf, "text")
        a = cells(ex, st, 64, "a")
        (s0, _), = ex.call("vp_from_" + suf, [a, src], st)
        o, b, e = content_view(ex, s0, suf, a, T, want)
        s = s0.copy()
        for fn, name, end in POS:
            (s, v), = u.returns(ex.call("vp_%s_%s" % (fn, suf), [a], s), name)
            ex.prove(s, same_ptr(v, e if end else b), "%s is the %s of the content" % (name, "end" if end else "begin"))
        x = cells(ex, s, 8, "x")
        for s2, _ in u.returns(ex.call("vp_gb_" + suf, [a, x], s.copy()), "grapheme_begin"):
            ex.prove(s2, same_ptr(cell(s2, x), b), "grapheme_begin starts at the begin of the content")
        y = cells(ex, s, 8, "y")
        for s2, _ in u.returns(ex.call("vp_ge_" + suf, [a, x, y], s), "grapheme_end"):
            ex.prove(s2, z3.And(zb(same_ptr(cell(s2, x), e)), zb(same_ptr(cell(s2, y), e))), "grapheme_end is at the end of the content")
            ex.prove(s2, same(s2), "the source is left alone")
            o2, b2, e2 = content_view(ex, s2, suf, a, T, want)
            ex.prove(s2, o2.id == o.id, "asking for positions changes nothing")
            for s3, n in ex.call("vp_nat_" + suf, [a], s2):
                has(ex, s3, suf, n, want, "asking for positions changes nothing (content)")
    return f


def wrap_graph(suf, k, l):
    def f(u):
        ex, st, _ = base(u)
        T = text(ex, st)
        o = text_obj(ex, st, T, suf)
        b, e = z3.Ints("b e")
        ex.named += [("b", b), ("e", e)]
        st.pc += [b >= 0, e <= T.n, b <= T.n, e >= 0]
        for i, m in ((b, k), (e, l)):
            if m:
                st.pc += [i < T.n, z3.UGE(T.cp(i), [0, 0x80, 0x800, 0x10000][m])]
        x, y = cells(ex, st, 8, "x"), cells(ex, st, 8, "y")
        for s, _ in u.returns(ex.call("vp_gr_" + suf, [P(o, b, k), P(o, e, l), x, y], st)):
            ex.prove(s, same_ptr(cell(s, x), P(o, b, k)), "the grapheme begins where it was told to")
            ex.prove(s, same_ptr(cell(s, y), P(o, e, l)), "the grapheme ends where it was told to")
    return f


for suf in p_graph.SUF:
    unit("C26", "construction from the native type, " + suf, "wrap", wrap_copy(suf, "from"))
    unit("C26", "copy construction, " + suf, "wrap", wrap_copy(suf, "copy"))
    unit("C26", "assignment, " + suf, "wrap", wrap_copy(suf, "assign"))
    unit("C26", "self-assignment, " + suf, "wrap", wrap_copy(suf, "assign", True))
    unit("C26", "default construction, " + suf, "wrap", wrap_dflt(suf))
    unit("C26", "begin and end positions, " + suf, "wrap", wrap_pos(suf))
    for k, l in ((0, 0), (0, 2), (3, 0), (1, 1)) if suf.startswith("u8") else ((0, 0),):
        unit("C26", "grapheme, %s octets %d %d" % (suf, k, l), "wrap", wrap_graph(suf, k, l))
p_utf8.callee_units("C26")
