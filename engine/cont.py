"""std::basic_string<char> and std::basic_string<int> under trusted contracts.

A string object is a container whose content is a rope: a tuple of segments

  ("init", name, len)        octets / elements given by the caller, arbitrary
  ("byte", (b0, b1, ...))    literal octets (BV8 terms)
  ("unit", c)                one 32 bit element
  ("arr", A, lo, hi)         elements lo .. hi-1 of the z3 array A
  ("app", F, c)              F(c) for one codepoint
  ("fold", F, A, lo, hi)     F(A[lo]) .. F(A[hi-1]), concatenated
  ("text", T, (i,k), (j,l))  octets of an UTF-8 text between two positions

F is one of "enc8" (UTF-8 form), "canon", "compat" (full decomposition by the
library's lookup).  begin()/end()/data() materialise the content as a memory
object (a view); in-place writes go to the view; every operation that may
reallocate ends the lifetime of the view.
"""
import re
import z3
from symex import *
from texts import *
import symex

B32 = z3.BitVecSort(32)
B8 = z3.BitVecSort(8)
INT = z3.IntSort()
ARR8 = z3.ArraySort(INT, B8)
HAS = {k: z3.Function("has_" + k, B32, z3.BoolSort()) for k in ("canon", "compat")}
MAP = {k: z3.Function("map_" + k, B32, ARR) for k in ("canon", "compat")}
MLEN = {k: z3.Function("maplen_" + k, B32, INT) for k in ("canon", "compat")}
_ps = {}
_keep = []


def PS(F, A):
    """prefix sums of the lengths of F over the elements of A"""
    key = (F, A.get_id())
    if key not in _ps:
        _keep.append(A)
        _ps[key] = z3.Function("ps_%s_%d" % (F, len(_ps)), INT, INT)
    return _ps[key]


def flen(F, c):
    if F == "enc8":
        return enc_len(c)
    return z3.If(HAS[F](c), MLEN[F](c), 1)


def flen_facts(F, c):
    if F == "enc8":
        return []
    return [z3.Implies(HAS[F](c), z3.And(MLEN[F](c) >= 1, MLEN[F](c) <= 64))]


def ps_step(F, A, i):
    """facts: the recursion of the prefix sums at i"""
    c = z3.Select(A, zint(i))
    p = PS(F, A)
    return flen_facts(F, c) + [p(zint(i) + 1) == p(zint(i)) + flen(F, c)]


def ps_mono(F, A, lo, hi):
    p = PS(F, A)
    return z3.Implies(zint(lo) <= zint(hi), p(zint(hi)) - p(zint(lo)) >= zint(hi) - zint(lo))


class Cont:
    __slots__ = ("rope", "view", "arr0", "n")

    def __init__(self, rope, view=None, arr0=None, n=None):
        self.rope, self.view, self.arr0, self.n = tuple(rope), view, arr0, n

    def key(self):
        return (tuple(segkey(s) for s in self.rope), self.view)


def segkey(s):
    def k(x):
        if z3.is_expr(x):
            return ("z", x.get_id())
        if isinstance(x, tuple):
            return tuple(k(y) for y in x)
        if isinstance(x, Text):
            return x.name
        return x
    return tuple(k(x) for x in s)


def new_cont(ex, st, esz, rope, name):
    o = ex.new_obj("cont", name)
    o.esz = esz
    st.mem[o.id] = (Cont(rope),)
    return o


def string_obj(ex, st, esz, rope, name):
    """A std::string (esz 1) / std::basic_string<int> (esz 4) in memory"""
    c = new_cont(ex, st, esz, rope, name)
    o = ex.new_obj("cells", name + ".obj", 32)
    st.mem[o.id] = {0: (32, ContRef(c.id))}
    return Ptr(o.id, 0), c


def content(ex, st, cid):
    """current rope"""
    c = st.mem[cid][0]
    if c.view is not None and ex.objs[c.view].kind == "arr" and c.view in st.mem:
        a = st.mem[c.view][0]
        if c.arr0 is None or not a.eq(c.arr0):
            return (("arr", a, 0, c.n),)
    return c.rope


def seg_len(ex, st, s):
    k = s[0]
    if k == "init":
        return s[2]
    if k == "byte":
        return len(s[1])
    if k == "unit":
        return 1
    if k == "arr":
        return iadd(s[3], -zint(s[2]) if not isint(s[2]) else -s[2])
    if k == "app":
        st.pc += flen_facts(s[1], s[2])
        return flen(s[1], s[2])
    if k == "fold":
        p = PS(s[1], s[2])
        st.pc.append(ps_mono(s[1], s[2], s[3], s[4]))
        return p(zint(s[4])) - p(zint(s[3]))
    if k == "text":
        t = s[1]
        (i, a), (j, b) = s[2], s[3]
        for f in t.off_facts(i, j):
            st.pc.append(f)
        return t.OFF(zint(j)) + b - t.OFF(zint(i)) - a
    raise Unsupported("length of segment " + k)


def rope_len(ex, st, rope):
    n = 0
    for s in rope:
        n = iadd(n, seg_len(ex, st, s))
    return n


def whole_text(ex, st, rope):
    if len(rope) == 1 and rope[0][0] == "text":
        s = rope[0]
        if s[2] == (0, 0) and s[3][1] == 0 and (s[3][0] is s[1].n or ieq(s[3][0], s[1].n) is True):
            return s[1]
    return None


def view(ex, st, cid):
    """(object, begin pointer, end pointer) of the content"""
    o = ex.objs[cid]
    c = st.mem[cid][0]
    if c.view is None or c.view not in st.mem:
        t = whole_text(ex, st, c.rope) if o.esz == 1 else None
        if t is not None:
            v = text8_obj(ex, st, t, o.name + ".data")
            st.mem[cid] = (Cont(c.rope, v.id),)
        else:
            v = ex.new_obj("arr", o.name + ".data")
            v.esz = o.esz
            a, n = materialise(ex, st, o, c.rope)
            for t in ex.texts:
                if o.esz == 4 and a.eq(t.T) and ieq(n, t.n) is True:
                    v.text = t
            st.mem[v.id] = (a, n)
            st.mem[cid] = (Cont(c.rope, v.id, a, n),)
        c = st.mem[cid][0]
    v = ex.objs[c.view]
    if v.kind == "u8text":
        return v, Ptr(v.id, (0, 0)), Ptr(v.id, (v.text.n, 0))
    return v, Ptr(v.id, 0), Ptr(v.id, c.n)


def materialise(ex, st, o, rope):
    if len(rope) == 1 and rope[0][0] == "arr" and (ieq(rope[0][2], 0) is True):
        return rope[0][1], rope[0][3]
    if len(rope) == 0:
        return z3.Const(ex.fresh("empty"), ARR if o.esz == 4 else ARR8), 0
    n = rope_len(ex, st, rope)
    for r, a, m, esz in ex.origins:
        if esz == o.esz and rope_eq(ex, st, r, rope):
            st.pc.append(zint(m) == zint(n))
            st.pc.append(zint(m) >= 0)
            return a, m
    a = z3.Const(ex.fresh(o.name + ".content"), ARR if o.esz == 4 else ARR8)
    m = z3.Int(ex.fresh(o.name + ".size"))
    st.pc.append(m == zint(n))
    st.pc.append(m >= 0)
    ex.origins.append((rope, a, m, o.esz))
    if o.esz == 4:
        if all(s[0] in ("fold", "app") for s in rope):
            ex.scalar_arrays.append(a)
    return a, m


def mutate(ex, st, cid, rope):
    """new content; the old buffer is gone"""
    c = st.mem[cid][0]
    if c.view is not None:
        st.mem.pop(c.view, None)
    st.mem[cid] = (Cont(rope),)


# -- comparison of ropes ----------------------------------------------------
def norm_text(s):
    """whole-codepoint slice of an UTF-8 text as a fold"""
    if s[0] == "text" and s[2][1] == 0 and s[3][1] == 0:
        return ("fold", "enc8", s[1].T, s[2][0], s[3][0])
    return s


def empty(ex, st, s):
    if s[0] == "byte":
        return len(s[1]) == 0
    if s[0] in ("arr", "fold"):
        lo, hi = s[-2], s[-1]
        e = ieq(lo, hi)
        return e is True or (e is not False and ex.valid(st, zint(lo) >= zint(hi)))
    if s[0] == "text":
        return s[2][1] == s[3][1] and (lambda e: e is True or (e is not False and ex.valid(st, e)))(ieq(s[2][0], s[3][0]))
    if s[0] == "init":
        return isint(s[2]) and s[2] == 0
    return False


def vd(ex, st, c):
    if isinstance(c, bool):
        return c
    return ex.valid(st, c)


def nonempty(ex, st, s):
    if s[0] in ("arr", "fold"):
        return vd(ex, st, zb(ilt(s[-2], s[-1])))
    return s[0] in ("byte", "unit", "app")


def pop(ex, st, rope):
    """split off the first elementary item: (item, rest); items: ("init",..) ("b", bv8) ("u", bv32) ("app", F, c) or None"""
    s = norm_text(rope[0])
    k = s[0]
    rest = rope[1:]
    if k == "byte":
        return ("byte1", s[1][0]), ((("byte", s[1][1:]),) + rest if len(s[1]) > 1 else rest)
    if k == "unit":
        return ("unit", s[1]), rest
    if k == "app":
        return s, rest
    if k == "arr":
        if nonempty(ex, st, s):
            e = z3.Select(s[1], zint(s[2]))
            return (("unit", e) if s[1].sort().range() == B32 else ("byte1", e)), (("arr", s[1], iadd(s[2], 1), s[3]),) + rest
    if k == "fold":
        if nonempty(ex, st, s):
            c = z3.Select(s[2], zint(s[3]))
            return ("app", s[1], c), (("fold", s[1], s[2], iadd(s[3], 1), s[4]),) + rest
    return None, None


def rope_eq(ex, st, a, b, fuel=60):
    a = [norm_text(s) for s in a]
    b = [norm_text(s) for s in b]
    while fuel:
        fuel -= 1
        while a and empty(ex, st, a[0]):
            a = a[1:]
        while b and empty(ex, st, b[0]):
            b = b[1:]
        if not a and not b:
            return True
        if not a or not b:
            return False
        s, t = a[0], b[0]
        if s[0] == "init" and t[0] == "init":
            if s[1] != t[1]:
                return False
            a, b = a[1:], b[1:]
            continue
        if s[0] == "init" or t[0] == "init":
            # an opaque prefix seen as array content
            return False
        if s[0] == t[0] and s[0] in ("fold", "arr") and s[:-3] == t[:-3] and vd(ex, st, zb(ieq(s[-2], t[-2]))):
            sa, ta = s[-3], t[-3]
            same_src = sa.eq(ta) or (sa.sort() == ta.sort() and (range_eq(ex, st, s, t) or (plain(sa) and plain(ta) and ex.valid(st, sa == ta))))
            if same_src:
                if vd(ex, st, zb(ieq(s[-1], t[-1]))):
                    a, b = a[1:], b[1:]
                    continue
                le = vd(ex, st, zint(s[-1]) <= zint(t[-1]))
                ge = not le and vd(ex, st, zint(s[-1]) >= zint(t[-1]))
                if le:
                    a = a[1:]
                    b = [t[:-2] + (s[-1], t[-1])] + list(b[1:])
                    continue
                if ge:
                    b = b[1:]
                    a = [s[:-2] + (t[-1], s[-1])] + list(a[1:])
                    continue
        if s[0] == "text" and t[0] == "text" and s[1] is t[1]:
            if s[2][1] == t[2][1] and s[3][1] == t[3][1] and vd(ex, st, zb(ieq(s[2][0], t[2][0]))) and vd(ex, st, zb(ieq(s[3][0], t[3][0]))):
                a, b = a[1:], b[1:]
                continue
            return False
        x, ra = pop(ex, st, tuple(a))
        y, rb = pop(ex, st, tuple(b))
        if x is None or y is None:
            return False
        if x[0] == y[0] and x[0] in ("byte1", "unit"):
            if not vd(ex, st, z3.simplify(x[1] == y[1])):
                return False
            a, b = list(ra), list(rb)
            continue
        if x[0] == "app" and y[0] == "app":
            if x[1] != y[1] or not vd(ex, st, z3.simplify(x[2] == y[2])):
                return False
            a, b = list(ra), list(rb)
            continue
        if y[0] == "app":
            a, b, x, y, ra, rb = b, a, y, x, rb, ra
        if x[0] != "app":
            return False
        F, c = x[1], x[2]
        if F == "enc8":
            if y[0] != "byte1":
                return False
            l = None
            for m in range(1, 5):
                if ex.valid(st, enc_len(c) == m):
                    l = m
            if l is None:
                return False
            rest = tuple(b)
            for k in range(l):
                if not rest:
                    return False
                z, rest = pop(ex, st, rest)
                if z is None or z[0] != "byte1" or not vd(ex, st, z3.simplify(z[1] == enc_octet(c, k, l))):
                    return False
                while rest and empty(ex, st, rest[0]):
                    rest = rest[1:]
            a, b = list(ra), list(rest)
            continue
        # decomposition
        if y[0] != "unit":
            return False
        if ex.valid(st, z3.Not(HAS[F](c))):
            if not vd(ex, st, z3.simplify(c == y[1])):
                return False
            a, b = list(ra), list(rb)
            continue
        if ex.valid(st, HAS[F](c)):
            a = [("arr", MAP[F](c), 0, MLEN[F](c))] + list(ra)
            continue
        return False
    return False


def plain(a):
    return z3.is_app(a) and not z3.is_quantifier(a)


def range_eq(ex, st, s, t):
    """the common part of two array slices is the same (pointwise)"""
    k = z3.Int(ex.fresh("k"))
    lo = zint(s[-2])
    hs, ht = zint(s[-1]), zint(t[-1])
    return ex.valid(st, z3.Implies(z3.And(lo <= k, k < hs, k < ht),
                                   z3.simplify(z3.Select(s[-3], k)) == z3.simplify(z3.Select(t[-3], k))))


# -- loops --------------------------------------------------------------
FOLDS = ("enc8", "canon", "compat")


def srcs(ex, st, l, v):
    """the array an index walks over"""
    o = ex.objs[v.obj]
    if o.kind == "u8text":
        return o.text.T
    if o.kind == "arr" and o.esz == 4 and o.id in st.mem:
        return st.mem[o.id][0]
    return None


def pos(v):
    return v.off[0] if isinstance(v.off, tuple) else v.off


def rope_templates(ex, fn, st, regs, entry, kinds, backs, hv):
    out = {}
    for loc, k in kinds.items():
        if k[0] != "cont":
            continue
        found = None
        for l, k2 in kinds.items():
            if k2[0] not in ("idx", "idx8") or not isinstance(hv.get(l), Ptr) or not isinstance(entry.get(l), Ptr):
                continue
            for F in FOLDS + ("id",):
                ok = bool(backs)
                for bst, _, bv in backs:
                    A = srcs(ex, bst, l, hv[l])
                    if A is None:
                        ok = False
                        break
                    c = z3.Select(A, zint(pos(hv[l])))
                    h0 = hv[loc][0].rope
                    new = content(ex, bst, loc[1])
                    if new[:len(h0)] != h0:
                        ok = False
                        break
                    add = new[len(h0):]
                    want = (("unit", c),) if F == "id" else (("app", F, c),)
                    if F == "id" and ex.objs[loc[1]].esz == 1:
                        ok = False
                        break
                    if not rope_eq(ex, bst, add, want):
                        ok = False
                        break
                if ok:
                    found = (F, l)
                    break
            if found:
                break
        if not found:
            raise Unsupported("the way a string grows in a loop is not recognised")
        out[loc] = found
    return out


def tmpl(ex, st, entry, vals, loc, ch):
    F, l = ch
    A = srcs(ex, st, l, entry[l])
    lo, hi = pos(entry[l]), pos(vals[l])
    seg = ("arr", A, lo, hi) if F == "id" else ("fold", F, A, lo, hi)
    return entry_rope(entry[loc][0], st) + (seg,)


def entry_rope(c, st):
    return c.rope


def rope_havoc(ex, h, entry, vals, loc, ch):
    if ch is None:
        r = (("init", ex.fresh("hole"), z3.Int(ex.fresh("holelen"))),)
    else:
        F, l = ch
        v = vals.get(l, entry.get(l))
        r = tmpl(ex, h, entry, {**entry, **vals}, loc, ch)
        if F != "id":
            A = srcs(ex, h, l, v)
            h.pc += ps_step(F, A, pos(v))
            h.pc.append(ps_mono(F, A, pos(entry[l]), pos(v)))
    vals[loc] = (Cont(r),)
    c = h.mem[loc[1]][0]
    if c.view is not None:
        h.mem.pop(c.view, None)
    h.mem[loc[1]] = vals[loc]


def rope_check(ex, bst, entry, hv, bv, loc, ch):
    if ch is None or not isinstance(bv.get(ch[1]), Ptr):
        return False
    return rope_eq(ex, bst, content(ex, bst, loc[1]), tmpl(ex, bst, entry, bv, loc, ch))


def ps_cands(ex, st, entry, kinds, ptrs, cnts, bvs, arrs, rope_choice):
    """a counter grows with the lengths of what is appended"""
    out = []
    for loc, ch in rope_choice.items():
        if loc[0] != "k" or ch is None or ch[0] == "id":
            continue
        F, l = ch
        A = srcs(ex, st, l, entry[l])
        p = PS(F, A)
        lo = zint(pos(entry[l]))
        for cl, k in cnts:
            c0 = cval(entry.get(cl))
            if c0 is None:
                continue

            def f(vals, s, cl=cl, l=l, p=p, lo=lo, c0=c0):
                c = cval(vals.get(cl))
                if c is None or not isinstance(vals.get(l), Ptr):
                    return None
                return c - c0 == p(zint(pos(vals[l]))) - p(lo)
            out.append(("counter counts what is appended", f))
    return out


def cval(v):
    if isinstance(v, IT) or isinstance(v, BV) and isint(v.e):
        return zint(itval(v))
    return None


# -- the contracts ------------------------------------------------------
def cont_at(ex, st, p):
    """id of the container at a pointer, or None"""
    if not isinstance(p, Ptr) or ex.objs[p.obj].kind != "cells" or p.obj not in st.mem:
        return None
    c = st.mem[p.obj].get(p.off)
    if c is not None and isinstance(c[1], ContRef):
        return c[1].id
    return None


def put(ex, st, p, esz, rope, x):
    o = ex.objs[p.obj]
    if o.kind != "cells":
        raise Unsupported("string object in " + o.kind)
    if not ex.bounds_ok(st, p, 32, x, "write"):
        return False
    c = new_cont(ex, st, esz, rope, o.name)
    ex.cell_store(st, p.obj, p.off, 32, ContRef(c.id))
    return True


def slice_of(ex, st, a, b, esz, x):
    """rope segments of the range [a, b) of native pointers; [(state, segs)] """
    if a is UNDEF or b is UNDEF:
        ex.fail(st, "initialised range", x)
        return []
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        raise Unsupported("range of a string operation")
    if a.obj == 0 and b.obj == 0:
        return [(st, ())]
    if a.obj != b.obj:
        ex.fail(st, "memory: a range lies in one object", x)
        return []
    o = ex.objs[a.obj]
    if o.id not in st.mem and o.kind not in ("const",):
        ex.fail(st, "memory: read of an object whose lifetime has ended (%s)" % o.name, x)
        return []
    if o.kind == "cells" or o.kind == "const":
        n = b.off - a.off
        if n < 0:
            ex.fail(st, "memory: the range is not reversed", x)
            return []
        if n % esz:
            raise Unsupported("misaligned range")
        out = [(st, [])]
        for k in range(n // esz):
            nxt = []
            for s, acc in out:
                for s2, v in ex.load(s, Ptr(a.obj, a.off + k * esz), symex._T(8 * esz), x):
                    if v is UNDEF:
                        ex.fail(s2, "initialised value appended", x)
                        continue
                    nxt.append((s2, acc + [zbv(ex.as_bv(v))]))
            out = nxt
        if esz == 1:
            return [(s, (("byte", tuple(acc)),) if acc else ()) for s, acc in out]
        return [(s, tuple(("unit", e) for e in acc)) for s, acc in out]
    if o.kind == "u8text":
        if esz != 1:
            raise Unsupported("octets as elements")
        t = o.text
        (i, k), (j, l) = a.off, b.off
        c = z3.And(zint(i) >= 0, zint(j) <= zint(t.n), zint(i) <= zint(j) if l >= k else zint(i) < zint(j))
        if not ex.oblige(st, z3.simplify(c), "memory: the range is inside the text %s" % o.name, x):
            return []
        return [(st, (("text", t, (i, k), (j, l)),))]
    if o.kind == "arr":
        if o.esz != esz:
            raise Unsupported("element size of a range")
        n = st.mem[o.id][1]
        c = z3.And(zint(a.off) >= 0, zint(b.off) <= zint(n), zint(a.off) <= zint(b.off))
        if not ex.oblige(st, z3.simplify(c), "memory: the range is inside %s" % o.name, x):
            return []
        return [(st, (("arr", st.mem[o.id][0], a.off, b.off),))]
    raise Unsupported("range in " + o.kind)


RX = re.compile(r"^(?:(?:void|bool|.*[&*>]) )?std::__cxx11::basic_string<(char|int), std::char_traits<(?:char|int)>, std::allocator<(?:char|int)> >::([~\w]+(?:=|\+=|\[\])?)(<.*>)?\((.*)\)( const)?$")


def name_ends(rest, name):
    return name.startswith("operator") or rest[:1] in ("(", "<")


def head(dem):
    """(element type, member, argument string) of a basic_string member, or None"""
    i = dem.find("std::__cxx11::basic_string<")
    if i < 0 or (i > 0 and dem[i - 1] != " " and i != 0):
        return None
    for el in ("char", "int"):
        pre = "std::__cxx11::basic_string<%s, std::char_traits<%s>, std::allocator<%s> >::" % (el, el, el)
        j = dem.find(pre)
        while j >= 0:
            # the member of this class itself: nothing but a return type before
            before = dem[:j]
            if before == "" or (before.endswith(" ") and before.count("<") == before.count(">") and before.count("(") == before.count(")")):
                k = j + len(pre)
                m = re.match(r"(~?[A-Za-z_]\w*|operator=|operator\+=|operator\[\])", dem[k:])
                if not m or not name_ends(dem[k + m.end():], m.group(1)):
                    j = dem.find(pre, j + 1)     # a type, not the member
                    continue
                name = m.group(1)
                if name.startswith("operator"):
                    name = re.match(r"operator(\+=|=|\[\]|.*?)(?=[<(])", dem[k:]).group(0)
                return el, name, dem[k + m.end():]
            j = dem.find(pre, j + 1)
    return None


_heads = {}


def model(ex, st, f, args, x):
    h = _heads.get(f.name)
    if h is None:
        h = _heads[f.name] = head(f.dem) or False
    if not h:
        return None
    el, name, rest = h
    if name.startswith("_") or name in ("_Alloc_hider",) or rest.startswith("::"):
        raise Unsupported("internal of std::basic_string reached: " + f.dem[-80:])
    esz = 1 if el == "char" else 4
    r = apply(ex, st, esz, name, rest, args, x, f)
    if r is None:
        raise Unsupported("std::basic_string::%s%s" % (name, rest[:60]))
    ex.trusted.add("std::basic_string (%s): constructors, assignment, append, insert, erase, resize, begin/end, size and element access as in the C++ standard" % el)
    return r


def src_rope(ex, st, p, x):
    c = cont_at(ex, st, p)
    if c is None:
        ex.fail(st, "memory: a live string object is read", x)
        return None
    return content(ex, st, c)


def apply(ex, st, esz, name, rest, args, x, f):
    this = args[0]
    i1 = lambda b: BV(1, int(b))
    if name == "basic_string":
        if len(args) == 1 or (len(args) == 2 and "allocator" in rest and "basic_string" not in rest):
            return [(st, None)] if put(ex, st, this, esz, (), x) else []
        if "basic_string<" in rest.split("allocator")[0] and len(args) == 2:
            r = src_rope(ex, st, args[1], x)
            if r is None:
                return []
            out = [(st, None)] if put(ex, st, this, esz, r, x) else []
            if "&&" in rest:
                mutate(ex, st, cont_at(ex, st, args[1]), ())
            return out
        if len(args) in (3, 4) and isinstance(args[1], Ptr) and isinstance(args[2], Ptr):
            return [(s, None) for s, segs in slice_of(ex, st, args[1], args[2], esz, x) if put(ex, s, this, esz, segs, x)]
        if len(args) in (3, 4) and isinstance(args[1], Ptr):
            return [(s2, None) for s, e in ex.padd(st, args[1], args[2], esz)
                    for s2, segs in slice_of(ex, s, args[1], e, esz, x) if put(ex, s2, this, esz, segs, x)]
        return None
    cid = cont_at(ex, st, this)
    if cid is None:
        ex.fail(st, "memory: a live string object is used", x)
        return []
    if name == "~basic_string":
        c = st.mem.pop(cid)[0]
        if c.view is not None:
            st.mem.pop(c.view, None)
        cells = dict(st.mem[this.obj])
        del cells[this.off]
        st.mem[this.obj] = cells
        return [(st, None)]
    if name in ("begin", "cbegin", "data", "c_str"):
        return [(st, view(ex, st, cid)[1])]
    if name in ("end", "cend"):
        return [(st, view(ex, st, cid)[2])]
    if name in ("size", "length"):
        return [(st, mkit(64, rope_len(ex, st, content(ex, st, cid))))]
    if name == "empty":
        n = rope_len(ex, st, content(ex, st, cid))
        r = ieq(n, 0)
        if not isinstance(r, bool):
            st.pc.append(zint(n) >= 0)
        return [(st, BV(1, int(r)) if isinstance(r, bool) else BV(1, r))]
    if name in ("operator[]", "at", "front", "back"):
        v, b, e = view(ex, st, cid)
        if name == "front":
            return [(st, b)]
        if name == "back":
            return ex.padd(st, e, BV(64, M64), esz)
        return ex.padd(st, b, args[1], esz)
    if name == "reserve" or name == "shrink_to_fit":
        mutate(ex, st, cid, content(ex, st, cid))
        return [(st, None)]
    if name == "capacity":
        n = z3.Int(ex.fresh("capacity"))
        st.pc.append(n >= zint(rope_len(ex, st, content(ex, st, cid))))
        return [(st, mkit(64, n))]
    if name == "clear":
        mutate(ex, st, cid, ())
        return [(st, None)]
    if name == "resize" and len(args) in (2, 3):
        return resize(ex, st, esz, cid, args, x)
    if name == "pop_back":
        v, b, e = view(ex, st, cid)
        return [(s2, None) for s, p in ex.padd(st, e, BV(64, M64), esz) for s2 in cut(ex, s, cid, p, x)]
    if name == "erase" and len(args) == 3 and isinstance(args[1], Ptr) and isinstance(args[2], Ptr):
        # from a position to the end
        v, b, e = view(ex, st, cid)
        if args[2].obj != v.id or not at(ex, st, args[2], e):
            return None
        return [(s, view(ex, s, cid)[2]) for s in cut(ex, st, cid, args[1], x)]
    if name == "insert" and len(args) in (3, 4) and isinstance(args[1], Ptr):
        # at the end, or at the beginning
        v, b, e = view(ex, st, cid)
        if args[1].obj != v.id:
            return None
        end = at(ex, st, args[1], e)
        if not end and not at(ex, st, args[1], b):
            return None
        new = added(ex, st, esz, args[2:], rest, x)
        if new is None:
            return None
        out = []
        for s, segs in new:
            r = content(ex, s, cid)
            n = rope_len(ex, s, r) if end else 0
            mutate(ex, s, cid, r + tuple(segs) if end else tuple(segs) + r)
            if esz == 1:
                out.append((s, UNDEF))      # the position of what was inserted, which nobody looks at
            else:
                out.append((s, Ptr(view(ex, s, cid)[0].id, n)))
        return out
    if name in ("operator=", "assign") and len(args) == 2 and isinstance(args[1], Ptr) and "basic_string<" in rest:
        r = src_rope(ex, st, args[1], x)
        if r is None:
            return []
        if cont_at(ex, st, args[1]) != cid:
            mutate(ex, st, cid, r)
            if "&&" in rest:
                mutate(ex, st, cont_at(ex, st, args[1]), ())
        return [(st, this)]
    if name == "swap":
        b = cont_at(ex, st, args[1])
        ra, rb = content(ex, st, cid), content(ex, st, b)
        mutate(ex, st, cid, rb)
        mutate(ex, st, b, ra)
        return [(st, None)]
    if name in ("push_back", "operator+=", "append") or name == "assign":
        base = () if name == "assign" else None

        def done(s, segs, ret):
            c = cont_at(ex, s, this)
            r = (content(ex, s, c) if base is None else base) + tuple(segs)
            mutate(ex, s, c, r)
            return (s, ret)
        ret = None if name == "push_back" else this
        vals = args[1:]
        new = added(ex, st, esz, vals, rest, x)
        return None if new is None else [done(s, segs, ret) for s, segs in new]
    return None


def at(ex, st, p, q):
    """two positions in one object are the same"""
    if isinstance(p.off, tuple):
        return p.off[1] == q.off[1] and vd(ex, st, zb(ieq(p.off[0], q.off[0])))
    return vd(ex, st, zb(ieq(p.off, q.off)))


def cut(ex, st, cid, p, x):
    """the content ends at the position p of its view"""
    v, b, e = view(ex, st, cid)
    if not isinstance(p, Ptr) or p.obj != v.id:
        ex.fail(st, "memory: a position in the string", x)
        return []
    return [s for s, segs in slice_of(ex, st, b, p, ex.objs[cid].esz, x) if mutate(ex, s, cid, tuple(segs)) is None]


def resize(ex, st, esz, cid, args, x):
    n = args[1]
    if not isinstance(n, (BV, IT)):
        return None
    v, b, e = view(ex, st, cid)
    size = rope_len(ex, st, content(ex, st, cid))
    if not vd(ex, st, z3.simplify(zint(itval(n)) <= zint(size))):
        return None
    if v.kind == "u8text" and not vd(ex, st, zb(ieq(itval(n), 0))):
        return None
    p = b if v.kind == "u8text" else Ptr(v.id, itval(n))
    return [(s, None) for s in cut(ex, st, cid, p, x)]


def added(ex, st, esz, vals, rest, x):
    """what append, insert, ... of these arguments adds: [(state, segments)], None if not known"""
    if len(vals) == 1 and isinstance(vals[0], (BV, IT)):
        e = zbv(ex.as_bv(vals[0]))
        return [(st, (("byte", (e,)),) if esz == 1 else (("unit", e),))]
    if len(vals) == 1 and isinstance(vals[0], Ptr) and "basic_string<" in rest:
        r = src_rope(ex, st, vals[0], x)
        return [] if r is None else [(st, r)]
    if len(vals) == 2 and isinstance(vals[0], Ptr) and isinstance(vals[1], Ptr):
        return slice_of(ex, st, vals[0], vals[1], esz, x)
    if len(vals) == 2 and isinstance(vals[0], Ptr) and isinstance(vals[1], (BV, IT)):
        return [y for s, e in ex.padd(st, vals[0], vals[1], esz) for y in slice_of(ex, s, vals[0], e, esz, x)]
    if len(vals) == 2 and isinstance(vals[0], BV) and isinstance(vals[1], BV) and isint(vals[0].e) and vals[0].e < 64:
        e = zbv(vals[1])
        n = vals[0].e
        return [(st, ((("byte", (e,) * n),) if n else ()) if esz == 1 else (("unit", e),) * n)]
    return None


def install(ex):
    ex.origins = []
    ex.scalar_arrays = []
    ex.texts = []
    ex.models.append(model)
    ex.rope_templates, ex.rope_check, ex.rope_havoc = rope_templates, rope_check, rope_havoc
    ex.cand_gens.append(ps_cands)
