"""C19-C22: canonical ordering, canonical composition, normal forms."""
import re
import z3
from symex import *
from texts import *
from proof import unit, Alternative
import cont, upper, order, lemmas, p_utf8, p_props, p_graph, p_norm
from cont import PS, INT
from p_graph import cells, cell, P
from p_norm import text, init_rope, out_string, native, is_rope

FORMS = {"d": "canon", "kd": "compat", "c": "canon", "kc": "compat"}


def base(u, modular=False):
    ex, st, _ = p_norm.base(u)
    order.install(ex)
    if modular:
        order.contracts(ex)
    ex.unroll = 10
    return ex, st


def deref(v):
    return zint(itval(v)) if isinstance(v, (BV, IT)) else None


# -- C19 ---------------------------------------------------------------
def ordering(fn):
    def f(u):
        ex, st = base(u)
        X = z3.Const("X", ARR)
        n = z3.Int("n")
        st.pc.append(n >= 0)
        ex.named.append(("n", n))
        o = ex.new_obj("arr", "codepoints")
        o.esz = 4
        st.mem[o.id] = (X, n)
        ex.orig[o.id] = (X, n)
        so = order.sorted_of(ex, X, n)
        j = z3.Int("j")
        for s, _ in u.returns(ex.call(fn, [Ptr(o.id, 0), Ptr(o.id, n)], st)):
            a, m = s.mem[o.id]
            so.hook(ex, s, j)
            ex.prove(s, z3.Implies(z3.And(0 <= j, j < n), z3.simplify(z3.Select(a, j)) == z3.Select(so.F, j)),
                     "every run of codepoints of non-zero class is stably sorted, everything else stays")
    return f


def whole(o):
    return lambda rope: len(rope) == 1


def in_form(form, suf, out, modular=True):
    """what reaches the output (D, KD) or the composition (C, KC) is canonically ordered"""
    def f(u):
        ex, st = base(u, modular)
        T = text(ex, st)
        o = p_graph.text_obj(ex, st, T, suf)
        b, e = p_graph.range_of(ex, st, T)
        es = cells(ex, st, 64, "output")
        hit = []

        def stop(ex, st, f, args, x):
            """the ordered sequence leaves: appended to the output, or composed"""
            if re.match(r"^(?:.* )?u5e::canonical_composition<", f.dem):
                check(ex, st, seq_of(ex, st, args[0]), x)
                return []
            if "::append_from_utf32ne<" in f.dem and args and isinstance(args[0], Ptr) and args[0].obj == es.obj:
                p, q = [raw(ex, st, a) for a in args[-2:]]
                check(ex, st, (p, q), x)
                return []
            return None

        def raw(ex, st, a):
            while isinstance(a, Ptr) and ex.objs[a.obj].kind == "cells":
                a = st.mem[a.obj].get(a.off, (0, UNDEF))[1]
            return a

        def seq_of(ex, st, p):
            cid = cont.cont_at(ex, st, p)
            if cid is None:
                return None, None
            _, b, e = cont.view(ex, st, cid)
            return b, e

        def check(ex, st, pq, x):
            p, q = pq
            ok = isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and ex.objs[p.obj].kind == "arr" and ex.objs[p.obj].esz == 4 and p.obj in st.mem
            ex.prove(st, ok, "the decomposed sequence is passed on", ex.loc(x))
            if ok:
                v = ex.objs[p.obj]
                A, n = st.mem[v.id]
                X, m = order.base_of(ex, st, v)
                so = order.sorted_of(ex, X, m)
                k = z3.Int(ex.fresh("k"))
                so.hook(ex, st, k)
                ex.prove(st, z3.And(zint(p.off) == 0, zint(q.off) == zint(n)), "the whole sequence is passed on", ex.loc(x))
                ex.prove(st, z3.Implies(z3.And(0 <= k, k < zint(m)), z3.simplify(z3.Select(A, k)) == z3.Select(so.F, k)),
                         "every run of codepoints of non-zero class is stably sorted, everything else stays", ex.loc(x))
            hit.append(st)
        ex.models.insert(0, stop)
        rs = ex.call("vp_%s_%s_%s" % (form, suf, out), [P(o, b), P(o, e), es], st)
        if not hit or any(ex.feasible(s, z3.BoolVal(True)) for s, _ in rs):
            # the sequence leaves in another way: prove the whole form (C21, C22), which implies this
            raise Alternative(globals()["form"](form, suf, out, modular))
        u.returns([(s, None) for s in hit])
    return f


for fn, n in (("vp_ordering_s", "string iterators"), ("vp_ordering_p", "pointers")):
    unit("C19", "canonical_ordering, " + n, "norm", ordering(fn))
for form in FORMS:
    for suf in p_graph.SUF:
        unit("C19", "form %s of a grapheme in %s" % (form.upper(), suf), "norm", in_form(form, suf, "u32"), inline=in_form(form, suf, "u32", False))
p_utf8.callee_units("C19")
for p in ("C19", "C21", "C22"):
    unit(p, "lemmas: counts", "norm", lemmas.zeros)


# -- C20 ---------------------------------------------------------------
def compose(u):
    ex, st = base(u)
    T = Text("Y")
    ex.texts.append(T)
    st.pc.append(T.n >= 0)
    ex.named.append(("n", T.n))
    p, c = cont.string_obj(ex, st, 4, (("arr", T.T, 0, T.n),), "sequence")
    es = cells(ex, st, 64, "data")
    co = order.Comp(ex, T.T, T.n)
    st.pc += co.base()
    cnt = cells(ex, st, 4, "count")
    c0 = z3.Int("count0")
    st.mem[cnt.obj] = {0: (4, IT(32, c0))}
    rs = ex.call("vp_mk_u32s", [es, p], st)
    outs = []
    for s, _ in rs:
        outs += ex.call("vp_compose", [es, cnt], s)
    j = z3.Int("j")
    L = co.L(T.n)
    for s, v in u.returns(outs):
        for s2, cid in native(ex, s, "vp_nat_u32s", es):
            vw, b, e = cont.view(ex, s2, cid)
            ok = isinstance(v, Ptr) and v.obj == vw.id
            ex.prove(s2, zint(v.off) == L if ok else False, "the returned iterator is the end of the result")
            a, n = s2.mem[vw.id]
            co.hook(ex, s2, j)
            ex.prove(s2, z3.Implies(z3.And(0 <= j, j < L), z3.simplify(z3.Select(a, j)) == z3.Select(co.O(T.n), j)),
                     "the result is exactly the canonical composition of the sequence")
            ex.prove(s2, zint(n) == T.n, "the sequence keeps its length")
        k = deref(cell(s, cnt))
        ex.prove(s, k == c0 + T.n - L if k is not None else False, "the count grows by the number of merged codepoints")


unit("C20", "canonical_composition", "norm", compose)


# -- C21, C22 -----------------------------------------------------------
def form(form, suf, out, modular=True):
    kind = FORMS[form]

    def f(u):
        ex, st = base(u, modular)
        T = text(ex, st)
        o = p_graph.text_obj(ex, st, T, suf)
        b, e = p_graph.range_of(ex, st, T)
        ex.extra_idx += [(o.id, e)]
        # the decomposition of the grapheme, as one sequence
        tmp = ex.new_obj("cont", "decomposition")
        tmp.esz = 4
        X, m = cont.materialise(ex, st, tmp, (("fold", kind, T.T, b, e),))
        so = order.sorted_of(ex, X, m)
        seq, n = so.F, m
        ex.scalar_arrays.append(so.F)
        if form in ("c", "kc"):
            co = order.Comp(ex, so.F, m)
            co.scalar = True
            st.pc += co.base()
            seq, n = co.O(zint(m)), co.L(zint(m))
            ex.scalar_arrays.append(seq)
        pre = init_rope(ex, st)
        rs, es = out_string(ex, st, out, pre)
        outs = []
        for s, _ in rs:
            outs += ex.call("vp_%s_%s_%s" % (form, suf, out), [P(o, b), P(o, e), es], s)
        for s, v in u.returns(outs):
            for s2, cid in native(ex, s, "vp_nat_" + ("u8s" if out == "u8" else "u32s"), es):
                seg = ("fold", "enc8", seq, 0, n) if out == "u8" else ("arr", seq, 0, n)
                is_rope(ex, s2, cid, pre + (seg,), "exactly the normalized codepoints are appended, in the encoding of the output")
            k = deref(v)
            ex.prove(s, k == zint(n) if k is not None else False, "the number of codepoints appended is returned")
    return f


def forms(p, fms, drop=None, sufs=p_graph.SUF, outs=("u8", "u32")):
    for fm in fms:
        for suf in sufs:
            for out in outs:
                unit(p, "form %s, %s to %s" % (fm.upper(), suf, out), "norm", form(fm, suf, out), inline=form(fm, suf, out, False), drop=drop)
    unit(p, "callee contract: canonical_ordering", "norm", ordering("vp_ordering_s"), guard=True)
    for out in outs:
        unit(p, "callee contract: append_from_utf32ne to " + out, "append", p_norm.from32("e", out), guard=True)
    decomp_guards(p)
    p_utf8.callee_units(p)
    unit(p, "lemmas: lengths", "norm", lemmas.sizes)
    if "c" in fms:
        unit(p, "callee contract: canonical_composition", "norm", compose, guard=True)
        unit(p, "lemmas: composition", "norm", lemmas.composed)


def decomp_guards(p):
    for d, n in (("canon", "canonical"), ("compat", "compatibility_and_canonical")):
        unit(p, "callee contract: %s_decomposition" % n, "norm", p_norm.decomp(d), guard=True)


decomp_guards("C19")
forms("C21", ("d", "kd"))
forms("C22", ("c", "kc"))
unit("C20", "lemmas: composition", "norm", lemmas.composed)


def all_forms(p):
    """what the forms are (C19-C22, without the counts), for properties that follow from it"""
    forms(p, FORMS, "number of codepoints|count grows", ("u8s", "u32v"), ("u32",))
    unit(p, "lemmas: counts", "norm", lemmas.zeros)


p_props.lookups("C19", "C14")
p_props.lookups("C20", "C14", "C17")
p_props.lookups("C21", "C14", "C15", "C16")
p_props.lookups("C22", "C14", "C15", "C16", "C17")
