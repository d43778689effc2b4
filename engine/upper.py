"""Contracts of the property lookups for the code above them, and the spec
functions of grapheme segmentation."""
import re
import z3
from symex import *
from texts import *
import ucd, cont
from cont import HAS, MAP, MLEN, B32, INT
from p_props import CCC, ccc_contract, RX_CCC

GCBF = z3.Function("gcb", B32, B32)
HASCMP = z3.Function("has_composite", B32, B32, z3.BoolSort())
COMPF = z3.Function("composite", B32, B32, B32)
BD = {}


def enums(mod):
    ex = Exec(mod)
    r = []
    for i in range(len(ucd.GCB)):
        (s, v), = ex.call("vp_gcbval", [BV(32, i)], St())
        r.append(v.e)
    return r


_brk = {}


def brk(ev, a, b):
    """grapheme boundary between codepoints a and b: the pairwise rules on their classes"""
    va, vb = GCBF(a), GCBF(b)
    V = lambda i: z3.BitVecVal(ev[i], 32)
    yes = []
    for i, x in enumerate(ucd.GCB):
        row = [j for j, y in enumerate(ucd.GCB) if ucd.boundary(x, y)]
        no = [j for j in range(len(ucd.GCB)) if j not in row]
        if not no:
            yes.append(va == V(i))
        elif len(row) < len(no):
            yes.append(z3.And(va == V(i), z3.Or(*[vb == V(j) for j in row])) if row else z3.BoolVal(False))
        else:
            yes.append(z3.And(va == V(i), *[vb != V(j) for j in no]))
    return z3.Or(*yes)


def gcb_contract(ev):
    vals = sorted(ev)
    dense = vals == list(range(len(vals)))

    def h(ex, st, f, args, x):
        v = args[-1]
        if not isinstance(v, BV) or v.w != 32:
            return None
        r = GCBF(zbv(v))
        ex_fact(st, z3.ULE(r, len(vals) - 1) if dense else z3.Or(*[r == z3.BitVecVal(e, 32) for e in vals]))
        w = x.ty.width if x is not None else 32
        return [(st, mkbv(w, z3.Extract(w - 1, 0, r) if w < 32 else r))]
    return h


def ex_fact(st, f):
    for g in st.pc[-12:]:
        if g.eq(f):
            return
    st.pc.append(f)


def map_contract(kind):
    def h(ex, st, f, args, x):
        v = args[-1]
        if not isinstance(v, BV) or v.w != 32:
            return None
        c = zbv(v)
        out = []
        for s, b in ex.branch(st, z3.simplify(HAS[kind](c))):
            if not b:
                out.append((s, NULL))
                continue
            l = MLEN[kind](c)
            key = (kind, c.get_id())
            if key not in ex.mapobj:
                o = ex.new_obj("arr", "%s mapping" % kind)
                o.esz, o.ro = 4, True
                ex.mapobj[key] = (o, c)
                ex.extra_idx.append((o.id, l))
            o = ex.mapobj[key][0]
            a = MAP[kind](c)
            s.mem[o.id] = (a, l + 1)
            s.pc += [l >= 1, l <= 64, z3.Select(a, l) == 0]
            out.append((s, Ptr(o.id, 0)))
        return out
    return h


def map_read(ex, st, o, i, r):
    """elements of a mapping are scalar values up to the terminating 0 (discharged in C15, C16)"""
    for kind in HAS:
        if o.kind == "arr" and o.ro and o.id in st.mem and z3.is_app(st.mem[o.id][0]) and st.mem[o.id][0].decl().eq(MAP[kind]):
            l = MLEN[kind](st.mem[o.id][0].arg(0))
            i = zint(i)
            st.pc.append(z3.Implies(z3.And(i >= 0, i < l), z3.And(r != 0, scalar(r))))


def comp_contract(ex, st, f, args, x):
    if len(args) != 3 or not isinstance(args[0], BV) or not isinstance(args[1], BV):
        return None
    a, b = zbv(args[0]), zbv(args[1])
    out = []
    for s, t in ex.branch(st, z3.simplify(HASCMP(a, b))):
        if t:
            c = COMPF(a, b)
            s.pc.append(scalar(c))
            s.pc.append(c != 0)
            for s2 in ex.store(s, args[2], BV(32, c), symex._T(32), x):
                out.append((s2, BV(1, 1)))
        else:
            out.append((s, BV(1, 0)))
    return out


import symex


def install(ex, ev=None):
    """contracts of the lookups (proved against the data in C09, C14-C17)"""
    ex.mapobj = {}
    P = r"^(?:.* )?u5e::props::"
    if ev is not None:
        ex.contracts.append((re.compile(P + r"grapheme_cluster_break::resolve\("), gcb_contract(ev), "grapheme_cluster_break::resolve: a function of the codepoint (C09)"))
    ex.contracts.append((RX_CCC, ccc_contract, "canonical_combining_class::resolve: a function of the codepoint, 0..254 (C14)"))
    ex.contracts.append((re.compile(P + r"canonical_decomposition_mapping::resolve\("), map_contract("canon"), "canonical_decomposition_mapping::resolve: null or a 0-terminated mapping (C15)"))
    ex.contracts.append((re.compile(P + r"compatibility_and_canonical_decomposition_mapping::resolve\("), map_contract("compat"), "compatibility_and_canonical_decomposition_mapping::resolve: null or a 0-terminated mapping (C16)"))
    ex.contracts.append((re.compile(P + r"canonical_composition_mapping::resolve\("), comp_contract, "canonical_composition_mapping::resolve: a partial function of the pair (C17)"))
    reads = [map_read, text_read, scalar_read]
    ex.read_hooks = reads

    def on_read(ex, st, o, i, r):
        for h in ex.read_hooks:
            h(ex, st, o, i, r)
    ex.on_read = on_read


def text_read(ex, st, o, i, r):
    if o.text is not None and isinstance(o.text, Text):
        o.text.assume_cp(ex, st, i)


def scalar_read(ex, st, o, i, r):
    """arrays whose elements are scalar values because of what they are (documented where they are made)"""
    if o.kind == "arr" and o.esz == 4 and o.id in st.mem:
        a = st.mem[o.id][0]
        if any(a.eq(b) for b in getattr(ex, "scalar_arrays", ())):
            st.pc.append(scalar(r))


def raw_cell(ex, st, p):
    """where an UTF-8 iterator object keeps its position: (offset, Ptr), at the first octet of a codepoint"""
    if not isinstance(p, Ptr) or ex.objs[p.obj].kind != "cells" or p.obj not in st.mem:
        return None
    m = st.mem[p.obj]
    for off in range(p.off, p.off + 16):
        c = m.get(off)
        if c is not None:
            if isinstance(c[1], Ptr) and ex.objs[c[1].obj].kind == "u8text" and c[1].off[1] == 0 and c[0] == 8:
                return off, c[1]
            if isinstance(c[1], Ptr):
                return None
    return None


def it_deref(ex, st, f, args, x):
    r = raw_cell(ex, st, args[0]) if len(args) == 1 else None
    if r is None or x is None or x.ty.kind != "int" or x.ty.width != 32:
        return None
    off, p = r
    t = ex.objs[p.obj].text
    i = zint(p.off[0])
    if not ex.oblige(st, z3.simplify(z3.And(i >= 0, i < zint(t.n))), "memory: read inside the text %s" % t.name, x):
        return []
    t.assume_cp(ex, st, p.off[0])
    return [(st, mkbv(32, t.cp(p.off[0])))]


def it_move(d):
    def h(ex, st, f, args, x):
        r = raw_cell(ex, st, args[0]) if len(args) == 1 else None
        if r is None:
            return None
        off, p = r
        t = ex.objs[p.obj].text
        i = zint(p.off[0])
        c = z3.And(i >= 0, i < zint(t.n)) if d > 0 else z3.And(i >= 1, i <= zint(t.n))
        if not ex.oblige(st, z3.simplify(c), "memory: stepping inside the text %s" % t.name, x):
            return []
        t.assume_cp(ex, st, p.off[0] if d > 0 else iadd(p.off[0], -1))
        ex.cell_store(st, args[0].obj, off, 8, Ptr(p.obj, (iadd(p.off[0], d), 0)))
        return [(st, args[0])]
    return h


def it_eq(neg):
    def h(ex, st, f, args, x):
        if len(args) != 2:
            return None
        a, b = raw_cell(ex, st, args[0]), raw_cell(ex, st, args[1])
        if a is None or b is None or a[1].obj != b[1].obj:
            return None
        r = ieq(a[1].off[0], b[1].off[0])
        if neg:
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return [(st, BV(1, int(r)) if isinstance(r, bool) else BV(1, r))]
    return h


IT_UNITS = []


def install_iter(ex):
    """contracts of utf8_const_iterator at the first octet of a codepoint"""
    for op, h in ((r"\*", it_deref), (r"\+\+", it_move(1)), ("--", it_move(-1)), ("==", it_eq(False)), ("!=", it_eq(True))):
        arg = r"\(.*\)" if op in ("==", "!=") else r"\(\)"
        ex.contracts.append((re.compile(r"^(?:.* )?u5e::utf8_const_iterator<.*>::operator" + op + arg + r"(?: const)?$"), h,
                             "utf8_const_iterator::operator%s at the first octet of a codepoint (C01, C03, C04; discharged here as well)" % op.replace("\\", "")))


class Seg:
    """Segmentation of a text: BC(i) counts the boundaries at 1..i; two positions are
    in the same grapheme iff their counts are equal"""
    def __init__(self, ex, text, ev):
        self.T, self.ev = text, ev
        self.pairs = None        # end of the range for candidates about (start, end) pairs
        self.BC = z3.Function(text.name + ".bc", INT, INT)
        self.B = z3.Function(text.name + ".boundary", INT, z3.BoolSort())
        text.hooks.append(self.hook)
        ex.cand_gens.append(self.cands)
        ex.assumptions.add("prefix counts of boundaries are used through instances of their recursion and monotonicity")

    def fact(self, i):
        i = zint(i)
        T = self.T
        return z3.Implies(z3.And(i >= 1, i < zint(T.n)),
                          z3.And(self.B(i) == brk(self.ev, T.cp(z3.simplify(i - 1)), T.cp(i)),
                                 self.BC(i) == self.BC(z3.simplify(i - 1)) + z3.If(self.B(i), 1, 0)))

    def hook(self, ex, st, i):
        i = z3.simplify(zint(i))
        key = ("seg", self.T.name)
        seen = st.ghost.get(key, frozenset())
        for j in (i, z3.simplify(i + 1)):
            self.T.keep.append(j)
            if j.get_id() not in seen:
                seen = seen | {j.get_id()}
                st.pc.append(self.fact(j))
        st.ghost[key] = seen

    def mono(self, i, j):
        i, j = zint(i), zint(j)
        return z3.Implies(i <= j, self.BC(i) <= self.BC(j))

    def cands(self, ex, st, entry, kinds, ptrs, cnts, bvs, arrs, rope_choice):
        out = []
        for l, k in ptrs:
            o = ex.objs[k[1]]
            if o.text is not self.T:
                continue
            fixed = []
            for e in entry.values():
                if isinstance(e, Ptr) and e.obj == k[1]:
                    t = cont.pos(e)
                    if not any(same_off(t, x) for x in fixed):
                        fixed.append(t)
            fixed += [t for oid, t in ex.extra_idx if oid == k[1]]
            for t in fixed:
                for d in (0, -1):
                    def f(vals, s, l=l, t=t, d=d):
                        v = vals.get(l)
                        if not isinstance(v, Ptr):
                            return None
                        return self.BC(z3.simplify(zint(cont.pos(v)) + d)) == self.BC(zint(t))
                    out.append(("boundaries up to index%s as up to %s" % ("-1" if d else "", t), f))
            if ex.strong:
                for t in fixed:
                    def f(vals, s, l=l, t=t):
                        v = vals.get(l)
                        return z3.Or(self.B(zint(cont.pos(v))), zint(cont.pos(v)) == zint(t)) if isinstance(v, Ptr) else None
                    out.append(("a grapheme starts at the index, or it is %s" % t, f))
            if self.pairs is None:
                continue
            for l2, k2 in ptrs:
                if l2 != l and k2[1] == k[1]:
                    def f(vals, s, l=l, l2=l2):
                        v, w = vals.get(l), vals.get(l2)
                        if not isinstance(v, Ptr) or not isinstance(w, Ptr):
                            return None
                        v, w = zint(cont.pos(v)), zint(cont.pos(w))
                        self.hook(ex, s, w)
                        return z3.If(v == self.pairs, w == self.pairs, self.next_end(v, w, self.pairs))
                    out.append(("the second index is the end of the grapheme of the first", f))
        return out

    def next_end(self, s, r, e):
        """r is the end of the grapheme of position s in a text that ends at e"""
        s, r, e = zint(s), zint(r), zint(e)
        return z3.And(s < r, r <= e, self.BC(z3.simplify(r - 1)) == self.BC(s), z3.Or(r == e, self.B(r)))
