"""C27, C28: lemmas over the property lookups.

The lookups are executed for every argument; their paths give the exact
function as a finite table of intervals.  A lemma is decided by evaluating it
on every entry of these tables, so for every codepoint; nothing is sampled."""
import bisect
import z3
from symex import *
from texts import *
from proof import unit
import cont, upper, ucd, p_props, p_graph, p_order, lemmas
from p_graph import cells, cell, P


class Fn:
    """total function on 32 bit codepoints: intervals of equal value"""
    def __init__(self, rows, ok):
        self.rows = sorted(rows, key=lambda r: r[:2])
        self.los = [r[0] for r in self.rows]
        self.ok = ok

    def __call__(self, c):
        return self.rows[bisect.bisect_right(self.los, c) - 1][2]

    def within(self, lo, hi):
        """[(lo, hi, value)] inside [lo, hi]"""
        i = bisect.bisect_right(self.los, lo) - 1
        out = []
        while i < len(self.rows) and self.rows[i][0] <= hi:
            l, h, v = self.rows[i]
            out.append((max(l, lo), min(h, hi), v))
            i += 1
        return out


def table(u, fn, read):
    ex, st, (c,) = p_props.setup(u, "c")
    rs = ex.call(fn, [BV(32, c)], st)
    rows = []
    for s, v in rs:
        b = s.bounds.get(c.get_id()) if s.bounds is not None else None
        if b is None:
            raise Unsupported("the paths of a lookup are not intervals of codepoints")
        rows.append((b[0], b[1], read(ex, s, v)))
    u.returns(rs[:2])
    n = sum(h - l + 1 for l, h, _ in rows)
    rows.sort()
    dis = all(a[1] < b[0] for a, b in zip(rows, rows[1:]))
    ex.obs.append(Ob("the lookup is a function on all codepoints", fn, n == 1 << 32 and dis, 0.0, "interval arithmetic"))
    return Fn(rows, True)


def word(ex, s, v):
    if not (isinstance(v, BV) and isint(v.e)):
        raise Unsupported("symbolic result of a lookup")
    return sgn(v.e, 32)


def pairs(u):
    """{(a, b): composite}"""
    ex, st, (a, b) = p_props.setup(u, "a", "b")
    o = ex.new_obj("cells", "result", 4)
    st.mem[o.id] = {0: (4, BV(32, z3.BitVec("before", 32)))}
    rs = ex.call("vp_comp", [BV(32, a), BV(32, b), Ptr(o.id, 0)], st)
    out, n = {}, 0
    for s, v in rs:
        if not (isinstance(v, BV) and isint(v.e)) or s.bounds is None:
            raise Unsupported("symbolic result of a lookup")
        ba, bb = s.bounds[a.get_id()], s.bounds[b.get_id()]
        n += (ba[1] - ba[0] + 1) * (bb[1] - bb[0] + 1)
        if v.e == 0:
            continue
        r = s.mem[o.id].get(0)
        r = r[1] if r and r[0] == 4 else None
        if not (isinstance(r, BV) and isint(r.e)):
            raise Unsupported("symbolic composite")
        if (ba[1] - ba[0] + 1) * (bb[1] - bb[0] + 1) > 200000:
            raise Unsupported("a composite for too many pairs")
        for x in range(ba[0], ba[1] + 1):
            for y in range(bb[0], bb[1] + 1):
                out[x, y] = sgn(r.e, 32)
    u.returns(rs[:2])
    ex.obs.append(Ob("the lookup is a function on all pairs of codepoints", "vp_comp", n == 1 << 64, 0.0, "interval arithmetic"))
    return out


def holds(u, name, where, ok, model=None, note=None):
    u.ex.obs.append(Ob(name, where, bool(ok), 0.0, "evaluation of the extracted table", model, note))


def show(m):
    return " ".join("%04X" % c for c in m)


def proper(m):
    """a mapping: non-empty tuple of scalar values"""
    return isinstance(m, tuple) and len(m) >= 1 and all(isinstance(c, int) and 0 < c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF for c in m)


def full(dec, c):
    m = dec(c)
    return (c,) if m is None else m


def stable(fn, what):
    def f(u):
        dec = table(u, fn, p_props.read_mapping)
        ccc = table(u, "vp_ccc", word)
        n = 0
        for lo, hi, m in dec.rows:
            if m is None:
                continue
            n += 1
            w = "%04X" % lo
            if not proper(m):
                holds(u, "a %s decomposition is a sequence of codepoints" % what, w, False, {"c": lo}, str(m)[:200])
                continue
            bad = [x for x in m if dec(x) is not None]
            holds(u, "a codepoint inside a %s decomposition has no further decomposition" % what, w, not bad, {"c": lo, "d": bad[0]} if bad else None,
                  "U+%04X -> %s, %s decomposes" % (lo, show(m), show(bad)) if bad else None)
            k = [ccc(x) for x in m]
            ok = all(not (a > b > 0) for a, b in zip(k, k[1:]))
            holds(u, "a %s decomposition is in canonical order" % what, w, ok, {"c": lo}, "U+%04X -> %s, classes %s" % (lo, show(m), k))
        holds(u, "there are decompositions (vacuity guard)", "", n > 1000)
        u.facts["decompositions"] = n
    return f


def composites(fn, what):
    def f(u):
        dec = table(u, fn, p_props.read_mapping)
        ccc = table(u, "vp_ccc", word)
        comp = pairs(u)
        canon = what == "canonical"
        # what composing decomposed text can meet: a composite, or a codepoint without a decomposition; then one without
        got, size = set(), -1
        while not canon and len(got) != size:
            size = len(got)
            got |= {c for (a, b), c in comp.items() if (a in got or dec(a) is None) and dec(b) is None}
        for (a, b), c in sorted(comp.items()):
            w = "%04X + %04X" % (a, b)
            if canon or ((a in got or dec(a) is None) and dec(b) is None):
                da, db, dc = full(dec, a), full(dec, b), full(dec, c)
                holds(u, "a composite has the %s decomposition of its pair" % what, w, dec(c) is not None and dc == da + db, {"a": a, "b": b},
                      "%04X -> %s, the pair -> %s %s" % (c, show(dc), show(da), show(db)))
            if canon:
                holds(u, "a composition pair starts with a codepoint of class zero", w, ccc(a) == 0, {"a": a, "b": b}, "class %d" % ccc(a))
        holds(u, "there are composites (vacuity guard)", "", len(comp) > 500)
        u.facts["pairs"] = len(comp)
    return f


unit("C27", "canonical decompositions", "props", stable("vp_cdm", "canonical"), True)
unit("C27", "compatibility decompositions", "props", stable("vp_kdm", "compatibility"), True)
unit("C27", "composites", "props", composites("vp_cdm", "canonical"), True)
unit("C27", "composites, compatibility", "props", composites("vp_kdm", "compatibility"), True)


# -- C28 ---------------------------------------------------------------
def boundaries(u, suf, classes, ev):
    """{(va, vb): boundary} of the code, for the classes the lookup returns"""
    ex = u.ex
    a, b = z3.BitVecs("a b", 32)
    st = St()
    T = Text("T", 2, [a, b])
    ex.texts.append(T)
    T.T = z3.Store(z3.Store(T.T, 0, a), 1, b)
    st.pc += T.facts() + [scalar(a), scalar(b)]
    o = p_graph.text_obj(ex, st, T, suf)
    r = cells(ex, st, 8, "result")
    rs = u.returns(ex.call("vp_pair_" + suf, [P(o, 0), P(o, 2), r], st), suf)
    D = {}
    G = upper.GCBF
    for s, v in rs:
        p = cell(s, r)
        if not isinstance(p, Ptr) or p.obj != o.id:
            raise Unsupported("end of a grapheme")
        at1 = cont.pos(p)
        for x in classes:
            s1 = s.copy()
            s1.pc.append(G(a) == z3.BitVecVal(x, 32))
            if not ex.feasible(s1, z3.BoolVal(True)):
                continue
            for y in classes:
                s2 = s1.copy()
                s2.pc.append(G(b) == z3.BitVecVal(y, 32))
                for e in ((True, False) if not isint(at1) else (at1 == 1,)):
                    if ex.feasible(s2, (zint(at1) == 1) == e):
                        D.setdefault((x, y), set()).add(e)
    tot = len(D) == len(classes) ** 2 and all(len(v) == 1 for v in D.values())
    ex.obs.append(Ob("whether there is a boundary depends on the two classes alone", suf, tot, 0.0, "z3", None,
                     None if tot else str([k for k, v in D.items() if len(v) > 1][:5])))
    return lambda x, y: True in D.get((x, y), {True})


def reach(u):
    ex = u.ex
    gcb = table(u, "vp_gcb", word)
    ccc = table(u, "vp_ccc", word)
    decs = {"canonical": table(u, "vp_cdm", p_props.read_mapping), "compatibility": table(u, "vp_kdm", p_props.read_mapping)}
    comp = pairs(u)
    ev = p_props.enum_values(u)
    name = {v: n for v, n in zip(ev, ucd.GCB)}
    ctl = {v for v, n in name.items() if n in ("CR", "LF", "CONTROL")}
    # controls: a class zero codepoint that no normalization step touches
    touched = {x for k in comp for x in k}
    for lo, hi, v in gcb.within(0, 0x10FFFF):
        if v in ctl:
            k = next((k for k in ccc.within(lo, hi) if k[2]), None)
            holds(u, "a control has combining class zero", "%04X" % lo, k is None, {"c": k[0]} if k else None)
            t = next((x for x in sorted(touched) if lo <= x <= hi), None)
            holds(u, "a control is in no composition pair", "%04X" % lo, t is None, {"c": t} if t is not None else None)
    classes = sorted({v for lo, hi, v in gcb.within(0, 0x10FFFF)})
    ex.no_merge, ex.unroll = False, 24
    cont.install(ex)
    upper.install(ex, ev)
    upper.install_iter(ex)
    B = {suf: boundaries(u, suf, classes, ev) for suf in p_graph.SUF}
    sc = [(0, 0xD7FF), (0xE000, 0x10FFFF)]

    def allowed(x, y):
        """no boundary between the classes, in any encoding"""
        return next((suf for suf in p_graph.SUF if B[suf](x, y)), None)
    for kind, dec in decs.items():
        # first and last codepoint of a decomposition -> codepoints (as intervals)
        first, last = {}, {}
        nz = []
        for a, b in sc:
            for lo, hi, m in dec.within(a, b):
                if m is None:
                    for l, h, k in ccc.within(lo, hi):
                        if k:
                            nz.append((l, h))
                else:
                    if not proper(m):
                        holds(u, "a decomposition is a sequence of codepoints", "%04X" % lo, False, {"c": lo})
                        continue
                    for c in range(lo, hi + 1):
                        first.setdefault(m[0], []).append(c)
                        last.setdefault(m[-1], []).append(c)
                    if ccc(m[0]):
                        nz.append((lo, hi))
        n = 0
        for l, h in nz:
            for a, b, y in gcb.within(l, h):
                n += 1
                bad = next((x for x in classes if x not in ctl and allowed(x, y)), None)
                holds(u, "a codepoint whose %s decomposition starts with a mark begins no grapheme except after a control" % kind,
                      "%04X" % a, bad is None, {"c": a}, None if bad is None else "class %s after %s" % (name.get(y), name.get(bad)))
        for lo, hi, v in gcb.within(0, 0x10FFFF):
            if v in ctl:
                d = next((r for r in dec.within(lo, hi) if r[2] is not None), None)
                holds(u, "a control has no %s decomposition" % kind, "%04X" % lo, d is None, {"c": d[0]} if d else None)
        if kind != "canonical":
            for lo, hi, m in decs["canonical"].rows:
                if m is not None:
                    d = next((r for r in dec.within(lo, hi) if r[2] is None), None)
                    holds(u, "a codepoint with a canonical decomposition has a %s one" % kind, "%04X" % lo, d is None, {"c": d[0]} if d else None)
        # codepoints without a decomposition stand for themselves
        whole = lambda c, d: [c] * (dec(c) is None) + d.get(c, [])
        m = 0
        for (a, b), c in sorted(comp.items()):
            if ccc(b):
                continue              # a mark: never the first of a grapheme, see above
            # whatever was merged into a is in its decomposition (see machine())
            ends = sorted({p for e in full(decs["canonical"], a) for p in whole(e, last)})
            starts = whole(b, first)
            for p in ends:
                for q in starts:
                    m += 1
                    w = allowed(gcb(p), gcb(q))
                    holds(u, "no boundary between codepoints whose %s decompositions compose" % kind, "%04X | %04X" % (p, q), w is None,
                          {"a": p, "b": q}, None if w is None else "%04X + %04X -> %04X across a boundary (%s)" % (a, b, c, w))
        u.facts[kind] = {"marks": n, "pairs": m}
        holds(u, "there are marks and pairs (vacuity guard)", kind, n > 50 and m >= 10, None, "%d %d" % (n, m))


unit("C28", "graphemes and normalization", "lemma", reach, True)
unit("C28", "composition by grapheme", "lemma", lemmas.simulation)
unit("C27", "decomposing what was composed", "lemma", lemmas.idempotent)

# the arguments above are about what the forms and the segmentation are specified to do: both are proved again here
p_order.all_forms("C27")
p_order.all_forms("C28")
p_graph.segmentation("C28")
