"""Loops cut at an inductive invariant.

The cells a loop may modify are found by executing its body; at the loop head
they become arbitrary.  The invariant is the largest subset of a set of
candidate formulas that holds on entry and is preserved by the body (Houdini).
Candidates are generated from the roles of the modified cells (an index into
the same sequence as ..., the element before an index, a running total ...),
never from names.  In a final pass, with the invariant fixed, the obligations
of the body are recorded, and so are entry, preservation and termination.
"""
import z3
from symex import *
import symex


class Loc:
    pass


def snapshot(ex, fn, st, regs, header):
    d = {}
    for oid, c in st.mem.items():
        o = ex.objs[oid]
        if o.kind == "cells":
            for off, (sz, v) in c.items():
                d[("c", oid, off, sz)] = v
        elif o.kind == "arr" and not o.ro:
            d[("a", oid)] = c
        elif o.kind == "cont":
            d[("k", oid)] = c
    for x in fn.blocks[header].insts:
        if x.op != "phi":
            break
        d[("p", x.id)] = regs[x.id]
    for k, v in st.ghost.items():
        if k[0] == "int":
            d[("g", k)] = v
    return d


def same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        # array content or container content
        return len(a) == len(b) and all(
            x is y or (isint(x) and isint(y) and x == y) or
            (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) or
            (isinstance(x, tuple) and isinstance(y, tuple) and same(x, y)) or
            (not isinstance(x, tuple) and not z3.is_expr(x) and not isint(x) and hasattr(x, "key") and hasattr(y, "key") and x.key() == y.key())
            for x, y in zip(a, b))
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isint(a) and isint(b):
        return a == b
    return same_val(a, b)


class Peel(Exception):
    """the first iteration differs in shape: execute it separately"""


def havoc_kind(ex, a, b):
    """How to make a cell arbitrary whose value is a on one side and b on the other"""
    if a is UNDEF or b is UNDEF or a is None or b is None:
        return ("undef",)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        o = ex.objs[a.obj]
        if o.kind == "arr":
            return ("idx", a.obj)
        if o.kind == "u8text":
            if a.off[1] == b.off[1]:
                return ("idx8", a.obj, a.off[1])
            raise Peel()
        return ("undef",)
    if isinstance(a, (BV, IT)) and isinstance(b, (BV, IT)):
        if isinstance(a, IT) or isinstance(b, IT):
            return ("it", a.w)
        if isint(a.e) and isint(b.e) and a.w >= 32:
            return ("it", a.w)
        return ("bv", a.w)
    return ("undef",)


def join_kind(k1, k2):
    if k1 == k2:
        return k1
    ks = {k1[0], k2[0]}
    if ks == {"it", "bv"}:
        return k1 if k1[0] == "it" else k2
    return ("undef",)


def handle(ex, fn, st, regs, header, pred, depth, allocs):
    regs = dict(regs)
    ex.phis(fn, st, regs, header, pred)
    return handle_at(ex, fn, st, regs, header, depth, allocs, 0)


def handle_at(ex, fn, st, regs, header, depth, allocs, peeled):
    try:
        return cut(ex, fn, st.copy(), dict(regs), header, depth, allocs)
    except Peel:
        if peeled >= 2:
            raise Unsupported("no invariant found: the shape of a cell changes in every iteration")
    backs, exits, rets = one_pass(ex, fn, st, regs, header, fn.loops[header], depth, allocs, quiet=False)
    for s, r, _ in backs:
        r2, e2 = handle_at(ex, fn, s, r, header, depth, allocs, peeled + 1)
        rets += r2
        exits += e2
    return rets, exits


def cut(ex, fn, st, regs, header, depth, allocs):
    body = fn.loops[header]
    st.bounds = None
    entry = snapshot(ex, fn, st, regs, header)
    kinds = {}
    rope_choice = {}
    # ---- find the modified cells
    for _ in range(12):
        h, hregs = havoc(ex, st, regs, entry, kinds, rope_choice)
        hv = snapshot(ex, fn, h, hregs, header)
        backs, _, _ = one_pass(ex, fn, h, hregs, header, body, depth, allocs, quiet=True)
        new = False
        for bv in [b[2] for b in backs]:
            for loc in set(hv) | set(bv):
                x, y = hv.get(loc, UNDEF), bv.get(loc, UNDEF)
                if same(x, y):
                    continue
                if loc[0] == "c":
                    e = entry.get(loc, UNDEF)
                    k = havoc_kind(ex, e if loc not in kinds else x, y)
                    if loc in kinds:
                        if kinds[loc][0] == "undef":
                            continue
                        k2 = join_kind(kinds[loc], k)
                        if k2 == kinds[loc]:
                            continue
                        k = k2
                    kinds[loc] = k
                    new = True
                elif loc not in kinds:
                    if loc[0] == "p":
                        kinds[loc] = havoc_kind(ex, entry.get(loc, UNDEF), y)
                    elif loc[0] == "a":
                        kinds[loc] = ("arr",)
                    elif loc[0] == "k":
                        kinds[loc] = ("cont",)
                    elif loc[0] == "g":
                        kinds[loc] = ("gint",)
                    new = True
        if not new:
            break
    else:
        raise Unsupported("modified cells of a loop do not stabilise")
    if not backs:
        # the body never repeats on any feasible path
        pass
    # ---- choose how a string grows in the loop
    if any(k[0] == "cont" for k in kinds.values()):
        try:
            rope_choice = ex.rope_templates(ex, fn, st, regs, entry, kinds, backs, hv)
        except Unsupported:
            # again with the bounds of the indices known
            _, hv, backs = houdini(ex, fn, st, regs, header, body, depth, allocs, entry, kinds, {})
            rope_choice = ex.rope_templates(ex, fn, st, regs, entry, kinds, backs, hv)
    # ---- choose the shape of the arrays the loop writes
    choices = [{}]
    for loc, k in kinds.items():
        if k[0] == "arr":
            ts = arr_templates(ex, st, entry, kinds, loc)
            ts = [t for t in ts if pointwise(ex, st, entry[loc][0], t[1](entry, st), care(t, entry))]
            choices = [{**c, ("arr!", loc): t} for t in ts for c in choices] + choices
    for n, ch in enumerate(choices):
        rope_choice.update(ch)
        for k in [k for k in rope_choice if k[0] == "arr!" and k not in ch]:
            del rope_choice[k]
        r = close(ex, fn, st, regs, header, body, depth, allocs, entry, kinds, rope_choice, last=n == len(choices) - 1)
        if r is not None:
            return r
    raise Unsupported("no invariant found")


def care(t, vals):
    """the indices at which an array template says something"""
    return (lambda k: t[2](vals, k)) if len(t) > 2 else (lambda k: z3.BoolVal(True))


def agree(a, b, k, where):
    e = z3.simplify(z3.Select(a, k)) == z3.simplify(z3.Select(b, k))
    w = where(k)
    return e if z3.is_true(w) else z3.Implies(w, e)


def pointwise(ex, st, a, b, where=lambda k: z3.BoolVal(True)):
    if b is None:
        return False
    if a is b:
        return True
    k = z3.Int(ex.fresh("k"))
    if ex.point_hook and ex.strong:
        st = st.copy()
        ex.point_hook(ex, st, k)
    return ex.valid(st, agree(a, b, k, where))


def arr_templates(ex, st, entry, kinds, loc):
    """[(label, f(values, state) -> array term)] for an array written in a loop"""
    out = []
    a0 = entry[loc][0]
    j = z3.Int("j!fill")
    for l, k in kinds.items():
        if k[0] == "idx" and k[1] == loc[1] and isinstance(entry.get(l), Ptr):
            p0 = zint(entry[l].off)
            for val in ex.fill_values:
                if a0.sort().range() != val.sort():
                    continue

                def f(vals, s, l=l, p0=p0, val=val):
                    v = vals.get(l)
                    if not isinstance(v, Ptr):
                        return None
                    return z3.Lambda([j], z3.If(z3.And(p0 <= j, j < zint(v.off)), val, z3.Select(a0, j)))
                out.append(("filled up to the index", f))
    for g in ex.arr_gens:
        out += g(ex, st, entry, kinds, loc)
    return out


def houdini(ex, fn, st, regs, header, body, depth, allocs, entry, kinds, rope_choice):
    """the inductive subset of the candidates; the loop head that satisfies it, and one pass from there"""
    h, hregs = havoc(ex, st, regs, entry, kinds, rope_choice)
    hv = snapshot(ex, fn, h, hregs, header)
    cands = candidates(ex, st, entry, hv, kinds, rope_choice)
    # entry
    k = ex.weed(st, [c[1](entry, st) for c in cands])
    cands = [c for i, c in enumerate(cands) if i in k]
    # ---- Houdini
    for rnd in range(30):
        h, hregs = havoc(ex, st, regs, entry, kinds, rope_choice)
        hv = snapshot(ex, fn, h, hregs, header)
        assume(ex, h, hv, cands)
        backs, _, _ = one_pass(ex, fn, h, hregs, header, body, depth, allocs, quiet=True)
        keep = cands
        for bst, _, bv in backs:
            k = ex.weed(bst, [c[1](bv, bst) for c in keep])
            keep = [c for i, c in enumerate(keep) if i in k]
        if len(keep) == len(cands):
            return cands, hv, backs
        cands = keep
    raise Unsupported("no invariant found")


def close(ex, fn, st, regs, header, body, depth, allocs, entry, kinds, rope_choice, last):
    cands, hv, backs = houdini(ex, fn, st, regs, header, body, depth, allocs, entry, kinds, rope_choice)
    atl = [(k[1], t) for k, t in rope_choice.items() if k[0] == "arr!"]
    if not last and atl:
        for bst, _, bv in backs:
            for loc, t in atl:
                if not pointwise(ex, bst, bv[loc][0], t[1](bv, bst), care(t, bv)):
                    return None
    # ---- final pass
    where = ex.loc(fn.blocks[header].insts[0])
    ex.prove_all(st, [("loop invariant holds on entry: " + c[0], c[1](entry, st)) for c in cands], where)
    h, hregs = havoc(ex, st, regs, entry, kinds, rope_choice)
    hv = snapshot(ex, fn, h, hregs, header)
    assume(ex, h, hv, cands)
    backs, exits, rets = one_pass(ex, fn, h, hregs, header, body, depth, allocs, quiet=False)
    for bst, _, bv in backs:
        ex.prove_all(bst, [("loop invariant is preserved: " + c[0], c[1](bv, bst)) for c in cands], where)
        for loc, t in atl:
            k = z3.Int(ex.fresh("k"))
            if ex.point_hook and ex.strong:
                ex.point_hook(ex, bst, k)
            ex.prove(bst, agree(bv[loc][0], t[1](bv, bst), k, care(t, bv)),
                     "loop invariant is preserved: array content: " + t[0], where)
        for loc, ch in rope_choice.items():
            if loc[0] == "arr!":
                continue
            ok = ex.rope_check(ex, bst, entry, hv, bv, loc, ch)
            ex.prove(bst, ok, "loop invariant is preserved: string content", where)
    measure(ex, entry, hv, backs, kinds, where)
    ex.inv_found = getattr(ex, "inv_found", [])
    if not ex.quiet:
        ex.inv_found.append((where, [c[0] for c in cands]))
    return rets, exits


def one_pass(ex, fn, h, hregs, header, body, depth, allocs, quiet):
    if quiet:
        ex.quiet += 1
    try:
        rets, exits, backs = ex.run(fn, [(h, hregs, header, -2, {})], depth, allocs, region=body, header=header)
        bs = []
        for s, r, b, p, v in backs:
            r = dict(r)
            ex.phis(fn, s, r, header, p)
            bs.append((s, r, snapshot(ex, fn, s, r, header)))
    finally:
        if quiet:
            ex.quiet -= 1
    exits = [(s, r, b, p, {}) for s, r, b, p, v in exits]
    return bs, exits, rets


def havoc(ex, st, regs, entry, kinds, rope_choice):
    h = st.copy()
    hregs = dict(regs)
    vals = {}
    for loc, k in kinds.items():
        if k[0] == "idx":
            v = Ptr(k[1], z3.Int(ex.fresh("ix")))
        elif k[0] == "idx8":
            v = Ptr(k[1], (z3.Int(ex.fresh("ix")), k[2]))
        elif k[0] == "it":
            v = IT(k[1], z3.Int(ex.fresh("ct")))
        elif k[0] == "bv":
            n = ex.fresh("v")
            v = BV(k[1], z3.Bool(n) if k[1] == 1 else z3.BitVec(n, k[1]))
        elif k[0] == "gint":
            v = z3.Int(ex.fresh("gh"))
        elif k[0] == "arr":
            a = entry[loc][0]
            v = (z3.Const(ex.fresh("arr"), a.sort()),) + tuple(entry[loc][1:])
        elif k[0] == "cont" or k[0] == "arr" and ("arr!", loc) in rope_choice:
            continue
        else:
            v = UNDEF
        vals[loc] = v
        if loc[0] == "c":
            cells = dict(h.mem[loc[1]])
            cells[loc[2]] = (loc[3], v)
            h.mem[loc[1]] = cells
        elif loc[0] == "a":
            h.mem[loc[1]] = v
        elif loc[0] == "p":
            hregs[loc[1]] = v
        elif loc[0] == "g":
            h.ghost[loc[1]] = v
    for loc, k in kinds.items():
        if k[0] == "arr" and ("arr!", loc) in rope_choice:
            a = rope_choice[("arr!", loc)][1]({**entry, **vals}, h)
            vals[loc] = (a,) + tuple(entry[loc][1:])
            h.mem[loc[1]] = vals[loc]
        if k[0] == "cont":
            ex.rope_havoc(ex, h, entry, vals, loc, rope_choice.get(loc))
    return h, hregs


def idx_of(v):
    if isinstance(v, Ptr):
        return v.off[0] if isinstance(v.off, tuple) else v.off
    return None


def candidates(ex, st, entry, hv, kinds, rope_choice):
    """[(label, f)] with f(values, state) -> z3 Bool / True / None"""
    out = []
    ptrs = [(l, k) for l, k in kinds.items() if k[0] in ("idx", "idx8")]
    ptrs = uniq(ptrs, entry)
    cnts = [(l, k) for l, k in kinds.items() if k[0] in ("it", "gint")]
    bvs = [(l, k) for l, k in kinds.items() if k[0] == "bv"]
    arrs = [l for l, k in kinds.items() if k[0] == "arr"]

    def P(l):
        return lambda vals: zint(idx_of(vals[l])) if isinstance(vals.get(l), Ptr) else None

    def Cn(l):
        def g(vals):
            v = vals.get(l)
            if z3.is_expr(v) or isint(v):
                return zint(v)
            if isinstance(v, IT) or (isinstance(v, BV) and isint(v.e)):
                return zint(itval(v))
            return None
        return g

    def mk(label, fn, *getters):
        def f(vals, s):
            xs = [g(vals) for g in getters]
            if any(x is None for x in xs):
                return None
            return z3.simplify(fn(*xs))
        out.append((label, f))
    fixed = fixed_terms(ex, st, entry)
    for l, k in ptrs:
        p = P(l)
        e0 = zint(idx_of(entry[l]))
        for t in fixed.get(k[1], []):
            t = zint(t)
            mk("index >= %s" % t, lambda x, t=t: x >= t, p)
            mk("index <= %s" % t, lambda x, t=t: x <= t, p)
            if ex.strong:
                mk("index < %s" % t, lambda x, t=t: x < t, p)
                mk("index > %s" % t, lambda x, t=t: x > t, p)
            if not t.eq(e0):
                mk("%s not passed" % t, lambda x, t=t, e0=e0: z3.Or(t < e0, t >= x), p)
                mk("%s not passed backwards" % t, lambda x, t=t, e0=e0: z3.Or(t > e0, t <= x), p)
        fx = [zint(t) for t in fixed.get(k[1], [])]
        for a in fx:
            for b in fx:
                if a is not b:
                    mk("[start,index) disjoint from [%s,%s)" % (a, b),
                       lambda x, a=a, b=b, e0=e0: z3.Or(x == e0, x <= a, e0 >= b), p)
    nplain = len(out)
    for i, (l1, k1) in enumerate(ptrs):
        for l2, k2 in ptrs:
            if l1 == l2:
                continue
            if k1[1] == k2[1]:
                mk("index1 <= index2", lambda x, y: x <= y, P(l1), P(l2))
                mk("index1 + 1 == index2", lambda x, y: x + 1 == y, P(l1), P(l2))
                if ex.strong:
                    mk("index1 + 1 != index2", lambda x, y: x + 1 != y, P(l1), P(l2))
            if l1 < l2:
                a0, b0 = zint(idx_of(entry[l1])), zint(idx_of(entry[l2]))
                mk("equal steps", lambda x, y, a0=a0, b0=b0: x - a0 == y - b0, P(l1), P(l2))
    for l, k in cnts:
        c0 = Cn(l)(entry)
        if c0 is None:
            continue
        mk("counter >= start", lambda c, c0=c0: c >= c0, Cn(l))
        mk("counter <= start", lambda c, c0=c0: c <= c0, Cn(l))
        mk("counter >= 0", lambda c: c >= 0, Cn(l))
        for d in spans(fixed):
            mk("counter <= %s" % d, lambda c, d=d: c <= d, Cn(l))
        for l2, k2 in ptrs:
            p0 = zint(idx_of(entry[l2]))
            mk("counter counts steps", lambda c, x, c0=c0, p0=p0: c - c0 == x - p0, Cn(l), P(l2))
            mk("counter counts down", lambda c, x, c0=c0, p0=p0: c0 - c == x - p0, Cn(l), P(l2))
        for l3, k3 in cnts:
            if l < l3:
                d0 = Cn(l3)(entry)
                if d0 is not None:
                    mk("equal counts", lambda c, d, c0=c0, d0=d0: c - c0 == d - d0, Cn(l), Cn(l3))
    for l, k in bvs:
        v0 = entry.get(l)
        g = (lambda vals, l=l: zbv(vals[l]) if isinstance(vals.get(l), BV) else None)
        if isinstance(v0, BV):
            mk("value unchanged", lambda x, v0=v0: x == zbv(v0), g)
        if k[1] == 8 and isinstance(v0, BV):
            mk("flag is 0 or 1", lambda x: z3.ULE(x, 1), g)
        if k[1] == 8 and isinstance(v0, BV) and ex.strong:
            mk("octet is not a continuation octet, and announces at most four", lambda x: z3.And(z3.Or(z3.ULT(x, 0x80), z3.UGE(x, 0xC0)), z3.ULT(x, 0xF8)), g)
        if k[1] == 8 and isinstance(v0, BV) and isint(v0.e):
            for l2, k2 in ptrs:
                p0 = zint(idx_of(entry[l2]))
                mk("flag unchanged iff no step", lambda x, y, v0=v0, p0=p0: (x == zbv(v0)) == (y == p0), g, P(l2))
        if k[1] == 32:
            for l2, k2 in ptrs:
                o = ex.objs[k2[1]]
                for d in (-1, 0, 1):
                    def f(vals, s, l=l, l2=l2, d=d, o=o):
                        if not isinstance(vals.get(l), BV) or not isinstance(vals.get(l2), Ptr):
                            return None
                        c = ex.elem(s, o, iadd(idx_of(vals[l2]), d))
                        return None if c is None else zbv(vals[l]) == c
                    out.append(("value is element at index%+d" % d, f))
    for l in arrs:
        a0 = entry[l][0]

        def f(vals, s, l=l, a0=a0):
            return vals[l][0] == a0
        if ("arr!", l) not in rope_choice:
            out.append(("array unchanged", f))
    for gen in ex.cand_gens:
        out += gen(ex, st, entry, kinds, ptrs, cnts, bvs, arrs, rope_choice)
    plain = list(out) if ex.strong and len(out) < 400 else out[:nplain]
    settled = []        # how the fixed positions lie to each other: what a flag may stand for
    if ex.strong:
        for ts in fixed.values():
            ts = uniq_terms([zint(t) for t in ts])
            if len(ts) > 7:
                continue
            for t in ts:
                for a in ts:
                    for b in ts:
                        if not (t.eq(a) or t.eq(b) or a.eq(b)):
                            settled.append(("%s in [%s,%s) or at its start" % (t, a, b),
                                            lambda vals, s, t=t, a=a, b=b: z3.Or(t == a, z3.And(a <= t, t < b))))
    # what is known while a flag is set or not set
    for l, k in bvs:
        v0 = entry.get(l)
        if k[1] == 8 and isinstance(v0, BV) and (not isint(v0.e) or v0.e <= 1):
            more = list(plain) + settled
            for l2, k2 in ptrs:
                fx = [zint(t) for t in fixed.get(k2[1], [])]
                for a in fx:
                    for b in fx:
                        if a is not b:
                            def last(vals, s, l2=l2, a=a, b=b):
                                x = vals.get(l2)
                                return None if not isinstance(x, Ptr) else z3.And(a < zint(idx_of(x)), zint(idx_of(x)) <= b)
                            more.append(("last step in [%s,%s)" % (a, b), last))
            for b in (0, 1):
                for lab, c in more:
                    def f(vals, s, l=l, c=c, b=b):
                        v = vals.get(l)
                        if not isinstance(v, BV):
                            return None
                        if isint(v.e):
                            return c(vals, s) if v.e == b else True
                        r = c(vals, s)
                        return r if r is None or r is True else z3.Implies(zbv(v) == b, r)
                    out.append(("flag %d: %s" % (b, lab), f))
    return out


def uniq_terms(ts):
    out = []
    for t in ts:
        if not any(t.eq(x) for x in out):
            out.append(t)
    return out


def spans(fixed):
    """distances between the index terms known of a sequence"""
    out = []
    for ts in fixed.values():
        if len(ts) > 5:
            continue
        for a in ts:
            for b in ts:
                if a is not b:
                    d = z3.simplify(zint(b) - zint(a))
                    if not z3.is_int_value(d) and not any(d.eq(x) for x in out):
                        out.append(d)
    return out


def fixed_terms(ex, st, entry):
    """index terms known of each sequence"""
    fixed = {}
    for l, v in entry.items():
        if isinstance(v, Ptr) and ex.objs[v.obj].kind in ("arr", "u8text"):
            t = idx_of(v)
            lst = fixed.setdefault(v.obj, [])
            if not any(same(t, x) for x in lst):
                lst.append(t)
    for oid in list(fixed):
        o = ex.objs[oid]
        n = o.text.n if o.text is not None else (st.mem[oid][1] if oid in st.mem else None)
        for t in (0, n):
            if t is not None and not any(same(t, x) for x in fixed[oid]):
                fixed[oid].append(t)
    for oid, t in ex.extra_idx:
        fixed.setdefault(oid, []).append(t)
    return fixed


def uniq(ptrs, entry):
    return ptrs


def assume(ex, h, hv, cands):
    for c in cands:
        f = c[1](hv, h)
        if f is not None and f is not True:
            h.pc.append(f)
    for hook in ex.head_hooks:
        hook(ex, h, hv)


def measure(ex, entry, hv, backs, kinds, where):
    """Some index or counter moves strictly towards a bound on every repetition"""
    if ex.quiet or not backs:
        return
    flags = [l for l, k in kinds.items() if k[0] == "bv" and k[1] == 8] if ex.strong else []
    for l, k in kinds.items():
        if k[0] in ("idx", "idx8", "it"):
            def val(d, l=l):
                v = d.get(l)
                if isinstance(v, Ptr):
                    return zint(idx_of(v))
                if isinstance(v, IT) or isinstance(v, BV) and isint(v.e):
                    return zint(itval(v))
                return None
            x = val(hv)
            if x is None:
                continue
            bounds = []
            if k[0] != "it":
                o = ex.objs[k[1]]
                n = o.text.n if o.text is not None else None
                up = n if n is not None else entry.get(("a", k[1]), (None, None))[1]
                if up is None and k[1] in ex.objs:
                    up = ex.obj_n(backs[0][0], o)
                ups = [up] if up is not None else []
            else:
                ups = spans(fixed_terms(ex, backs[0][0], entry))
            for fl in flags:
                # an index that stands still while a flag changes, once
                def val2(d, fl=fl):
                    x, f = val(d), d.get(fl)
                    return None if x is None or not isinstance(f, BV) else (x, z3.If(zbv(f) == 0, 0, 1))
                for sg in (1, -1):
                    for fs in (1, -1):
                        m0 = val2(hv)
                        ms = [val2(bv) for _, _, bv in backs]
                        if m0 is None or any(m is None for m in ms):
                            continue
                        if sg > 0 and not ups:
                            continue
                        if all(ex.valid(bst, z3.And(sg * m[0] + fs * m[1] > sg * m0[0] + fs * m0[1],
                                                    m[0] >= 0 if sg < 0 else m[0] <= zint(ups[0]))) for m, (bst, _, _) in zip(ms, backs)):
                            ex.prove(backs[0][0], True, "loop terminates: index or flag moves towards the %s" % ("end" if sg > 0 else "start"), where)
                            return
            okup, okdn = True, True
            for bst, _, bv in backs:
                y = val(bv)
                if y is None:
                    okup = okdn = False
                    break
                if okup and not ex.valid(bst, y > x):
                    okup = False
                if okup:
                    ups = [up for up in ups if ex.valid(bst, y <= zint(up))]
                    okup = bool(ups)
                if okdn and not ex.valid(bst, z3.And(y < x, x >= 0)):
                    okdn = False
            if okup or okdn:
                ex.prove(backs[0][0], True, "loop terminates: index moves towards %s" % ("the end" if okup else "the start"), where)
                return
    ex.prove(backs[0][0], False, "loop terminates", where, "no measure found")
