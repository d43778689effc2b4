"""C09, C14-C17: property lookups against the Unicode data.  The lookup (with
the bsearch it calls) is executed over all paths for a symbolic argument."""
import bisect, re
import z3
from symex import *
from proof import unit
import ucd, build, known

I32 = (-(1 << 31), (1 << 31) - 1)
_cache = {}


def data(src="snapshot"):
    if src not in _cache:
        _cache[src] = ucd.UCD(src)
    return _cache[src]


def sources():
    """The snapshot of the Unicode data decides; if /repo bundles other data, conformance to that counts as well."""
    r = ["snapshot"]
    for n in ("UnicodeData.txt", "CompositionExclusions.txt", "GraphemeBreakProperty.txt"):
        try:
            if ucd.text(n, "repo") != ucd.text(n, "snapshot"):
                return ["snapshot", "repo"]
        except OSError:
            pass
    return r


class Table:
    """spec: sorted disjoint (lo, hi, value); dflt elsewhere; alt[(lo, hi)]: also accepted, recorded finding"""
    def __init__(self, rows, dflt):
        self.rows = sorted(rows)
        self.los = [r[0] for r in self.rows]
        self.dflt = dflt

    def pieces(self, lo, hi):
        """[(lo, hi, value)] covering [lo, hi]"""
        out = []
        i = bisect.bisect_right(self.los, lo) - 1
        if i >= 0 and self.rows[i][1] < lo:
            i += 1
        i = max(i, 0)
        x = lo
        while x <= hi:
            if i < len(self.rows) and self.rows[i][0] <= x:
                l, h, v = self.rows[i]
                if h >= x:
                    out.append((x, min(h, hi), v))
                    x = min(h, hi) + 1
                i += 1
            else:
                h = self.rows[i][0] - 1 if i < len(self.rows) else hi
                out.append((x, min(h, hi), self.dflt))
                x = min(h, hi) + 1
        return out

    def formula(self, c, pred):
        """c is a codepoint whose value satisfies pred"""
        S = lambda v: z3.BitVecVal(v, 32)

        def rng(l, h):
            return c == S(l) if l == h else z3.And(c >= S(l), c <= S(h))
        yes = [rng(l, h) for l, h, v in self.rows if pred(v)]
        no = [rng(l, h) for l, h, v in self.rows if not pred(v)]
        if pred(self.dflt):
            return z3.Not(z3.Or(*no)) if no else z3.BoolVal(True)
        return z3.Or(*yes) if yes else z3.BoolVal(False)


def setup(u, *names):
    ex = u.ex
    ex.unroll = 100000
    ex.no_merge = True
    st = St()
    st.bounds = {}
    vs = []
    for n in names:
        v = z3.BitVec(n, 32)
        st.bounds[v.get_id()] = (I32[0], I32[1], v)
        ex.named.append((n, v))
        vs.append(v)
    return ex, st, vs


OPEN = float("nan")  # a path whose arguments are not an interval: no count


def leaf(ex, s, c, value, tabs, same, name, u, prop):
    """Obligation of one return path. value is what the code returns there."""
    b = s.bounds.get(c.get_id()) if s.bounds is not None else None
    if b is not None:
        for t in tabs:
            bad = []
            for l, h, v in t.pieces(b[0], b[1]):
                if not same(value, v):
                    w = known.accept(prop, l, h, value, v)
                    if w is None:
                        bad.append((l, h, v))
                    elif w:
                        u.known += [x for x in w if x not in u.known]
            if not bad:
                ex.obs.append(Ob(name, "c in [%d, %d]" % (b[0], b[1]), True, 0.0, "interval arithmetic"))
                return b[1] - b[0] + 1
        l, h, v = bad[0]
        ex.obs.append(Ob(name, "c in [%d, %d]" % (b[0], b[1]), False, 0.0, "interval arithmetic", {"c": l & 0xffffffff},
                         "returns %s, the data says %s" % (value, v)))
        return b[1] - b[0] + 1
    t = tabs[0]
    f = t.formula(c, lambda v: same(value, v))
    g = known.formula(prop, c, value)
    if g is not None:
        f = z3.Or(f, g)
    ex.prove(s, f, name)
    return OPEN


def total(ex, n, full, name="the paths cover every argument"):
    """All paths together cover the domain"""
    if n and n == n:
        ex.obs.append(Ob(name, "", n == full, 0.0, "interval arithmetic", None, None if n == full else "%d of %d" % (n, full)))


def enum_values(u):
    ex = Exec(u.mod)
    r = []
    for i in range(len(ucd.GCB)):
        (s, v), = ex.call("vp_gcbval", [BV(32, i)], St())
        r.append(v.e)
    return r


def gcb(u):
    ev = enum_values(u)
    ex, st, (c,) = setup(u, "c")
    name = {v: n for v, n in zip(ev, ucd.GCB)}
    tabs = [Table(data(s).gcb, "OTHER") for s in sources()]
    rs = ex.call("vp_gcb", [BV(32, c)], st)
    n = 0
    for s, v in rs:
        if not (isinstance(v, BV) and isint(v.e)):
            raise Unsupported("symbolic result of a lookup")
        n += leaf(ex, s, c, name.get(v.e, v.e), tabs, lambda a, b: a == b, "class looked up is that of the data", u, "C09")
    u.returns(rs[:3])
    total(ex, n, 1 << 32)
    u.facts["paths"] = len(rs)


def ccc(u):
    ex, st, (c,) = setup(u, "c")
    tabs = [Table([(k, k, v) for k, v in data(s).ccc.items()], 0) for s in sources()]
    rs = ex.call("vp_ccc", [BV(32, c)], st)
    n = 0
    for s, v in rs:
        if not (isinstance(v, BV) and isint(v.e)):
            raise Unsupported("symbolic result of a lookup")
        n += leaf(ex, s, c, sgn(v.e, 32), tabs, lambda a, b: a == b, "combining class looked up is that of the data", u, "C14")
    u.returns(rs[:3])
    total(ex, n, 1 << 32)
    u.facts["paths"] = len(rs)


CCC = z3.Function("ccc", z3.BitVecSort(32), z3.BitVecSort(32))


def ccc_contract(ex, st, f, args, inst):
    v = args[-1] if not isinstance(args[-1], Ptr) else None
    if not isinstance(v, BV):
        return None
    r = CCC(zbv(v))
    st.pc.append(z3.And(r >= 0, r <= 254))
    return [(st, BV(32, r))]


RX_CCC = re.compile(r"^u5e::props::canonical_combining_class::resolve\(")


def order(u):
    ex = u.ex
    st = St()
    a, b = z3.BitVecs("a b", 32)
    ex.named += [("a", a), ("b", b)]
    ex.contracts.append((RX_CCC, ccc_contract, "canonical_combining_class::resolve (proved against the data in C14)"))
    rs = ex.call("vp_order", [BV(32, a), BV(32, b)], st)
    for s, v in u.returns(rs):
        ex.prove(s, zbool(v) == (CCC(a) < CCC(b)) if isinstance(v, BV) else False, "order is that of the combining classes")


def read_mapping(ex, s, p):
    """the 0-terminated mapping a lookup returns"""
    if p is UNDEF or not isinstance(p, Ptr):
        raise Unsupported("result of a lookup")
    if p.obj == 0:
        return None
    from symex import _T
    r = []
    for k in range(40):
        (q, x), = ex.padd(s, p, BV(64, k), 4)
        vs = ex.load(s, x, _T(32), None)
        if not vs:
            return ("unterminated", tuple(r))
        v = vs[0][1]
        if not (isinstance(v, BV) and isint(v.e)):
            raise Unsupported("symbolic mapping element")
        if v.e == 0:
            return tuple(r)
        r.append(v.e)
    return ("long", tuple(r))


def proper(c):
    return isint(c) and 0 < c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF


def mapping(fn, prop, spec):
    def f(u):
        ex, st, (c,) = setup(u, "c")
        ex.cur = fn
        tabs = [Table([(k, k, tuple(v)) for k, v in spec(data(s)).items()], None) for s in sources()]
        rs = ex.call(fn, [BV(32, c)], st)
        n = 0
        memo = {}
        for s, v in rs:
            m = read_mapping(ex, s, v)
            n += leaf(ex, s, c, m, tabs, lambda a, b: a == b, "mapping looked up is that of the data", u, prop)
            if m is not None:
                ok = 1 <= len(m) <= 64 and all(proper(x) for x in m)
                ex.obs.append(Ob("a mapping is 1 to 64 scalar values and a terminating 0", "", ok, 0.0, "evaluation", None, None if ok else str(m)[:200]))
        u.returns(rs[:3])
        total(ex, n, 1 << 32)
        u.facts["paths"] = len(rs)
    return f


def comp(u):
    ex, st, (a, b) = setup(u, "a", "b")
    o = ex.new_obj("cells", "result", 4)
    st.mem[o.id] = {0: (4, BV(32, z3.BitVec("before", 32)))}
    before = st.mem[o.id][0][1]
    rs = ex.call("vp_comp", [BV(32, a), BV(32, b), Ptr(o.id, 0)], st)
    n = 0
    specs = []
    for src in sources():
        pr = data(src).pairs()
        by = {}
        for (x, y), c in pr.items():
            by.setdefault(x, {})[y] = c
        specs.append((pr, by, sorted(by)))
    L, V = range(0x1100, 0x1113), range(0x1161, 0x1176)

    def find(rect, specs, value):
        (al, ah), (bl, bh) = rect
        msg = None
        for pr, by, keys in specs:
            i = bisect.bisect_left(keys, al)
            hits = []
            while i < len(keys) and keys[i] <= ah:
                for y, c in by[keys[i]].items():
                    if bl <= y <= bh:
                        hits.append((keys[i], y, c))
                i += 1
            if value is None:
                if not hits:
                    return None, None
                msg = (hits[0], "no composite, the data says %d" % hits[0][2])
            else:
                if al == ah and bl == bh and hits and hits[0][2] == value:
                    return None, None
                x = (al, bl)
                for xx in range(al, min(ah, al + 300) + 1):
                    y = next((yy for yy in range(bl, min(bh, bl + 300) + 1) if (xx, yy, value) not in hits), None)
                    if y is not None:
                        x = (xx, y)
                        break
                msg = (x, "composite %d, the data says %s" % (value, pr.get(x)))
        return msg
    hangul = False
    for s, v in rs:
        if not (isinstance(v, BV) and isint(v.e)):
            raise Unsupported("symbolic result of a lookup")
        r = s.mem[o.id].get(0)
        r = r[1] if r and r[0] == 4 else None
        if v.e == 0:
            ok = isinstance(r, BV) and r.e is before.e
            ex.obs.append(Ob("nothing is stored without a composite", "", bool(ok), 0.0, "simplifier"))
            val = None
        else:
            if not (isinstance(r, BV) and isint(r.e)):
                raise Unsupported("symbolic composite")
            val = r.e
            ex.obs.append(Ob("a composite is a scalar value", "", proper(val), 0.0, "evaluation", None, None if proper(val) else str(val)))
        if s.bounds is not None:
            ba, bb = s.bounds[a.get_id()], s.bounds[b.get_id()]
            n += (ba[1] - ba[0] + 1) * (bb[1] - bb[0] + 1)
            msg = find((ba[:2], bb[:2]), specs, val)
            if val is None:
                for w in known.hangul_pairs(ba[:2], bb[:2]):
                    if w not in u.known:
                        u.known.append(w)
            elif msg != (None, None) and val is not None and known.hangul_ok(ba[:2], bb[:2], val):
                msg = (None, None)
            ok = msg == (None, None)
            ex.obs.append(Ob("composite looked up is that of the data", "a in %s, b in %s" % (ba[:2], bb[:2]), ok, 0.0,
                             "interval arithmetic", None if ok else {"a": msg[0][0] & 0xffffffff, "b": msg[0][1] & 0xffffffff},
                             None if ok else msg[1]))
        else:
            n = OPEN
            pr = specs[0][0]
            S = lambda x: z3.BitVecVal(x, 32)
            if val is None:
                f = z3.Not(z3.Or(*[z3.And(a == S(x), b == S(y)) for x, y in pr]))
            else:
                f = z3.Or(*[z3.And(a == S(x), b == S(y)) for (x, y), c in pr.items() if c == val], z3.BoolVal(False))
            ex.prove(s, f, "composite looked up is that of the data")
    u.returns(rs[:3])
    total(ex, n, 1 << 64)
    u.facts["paths"] = len(rs)


LOOKUPS = {
    "C09": ("grapheme_cluster_break::resolve", gcb),
    "C14": ("canonical_combining_class::resolve", ccc),
    "C15": ("canonical_decomposition_mapping::resolve", mapping("vp_cdm", "C15", lambda d: d.canonical())),
    "C16": ("compatibility_and_canonical_decomposition_mapping::resolve", mapping("vp_kdm", "C16", lambda d: d.compat())),
    "C17": ("canonical_composition_mapping::resolve", comp),
}
for _p, (_n, _f) in LOOKUPS.items():
    unit(_p, _n, "props", _f, True)
unit("C14", "canonical_combining_order", "props", order, True)


def lookups(prop, *deps):
    """the lookups a property rests on"""
    for p in deps:
        n, f = LOOKUPS[p]
        unit(prop, "callee contract: %s (%s)" % (n, p), "props", f, True, dep=p)
