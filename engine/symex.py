"""Symbolic execution of LLVM IR (llvmir.py) into proof obligations for z3.

Every path of a function is executed; loops are unrolled completely (each
further iteration must be refuted by the solver) or, when that does not end
within the unrolling limit, cut at an inductive invariant that is selected
from a set of candidate formulas (Houdini, loops.py).

Values
  BV(w, e)      machine integer; e is a Python int (unsigned) or a z3 term
                (a Bool for w == 1)
  IT(w, e, s)   integer whose value is s * e with e a z3 Int: lengths,
                indices, counters (treated as mathematical integers)
  Ptr(obj, off) off: int for concretely addressed memory, (i, k) for UTF-8
                text (octet k of codepoint i), Python int / z3 Int element
                index for arrays
  FnP(fn), Sym(name) function pointers; UNDEF; Agg
"""
import time
import z3

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, key):
        self.key = key


class NeedMerge(Exception):
    def __init__(self, key):
        self.key = key


class Budget(Exception):
    pass


class BV:
    __slots__ = ("w", "e")

    def __init__(self, w, e):
        self.w = w
        self.e = e

    def __repr__(self):
        return "BV%d(%s)" % (self.w, self.e)


class IT:
    __slots__ = ("w", "e", "s")

    def __init__(self, w, e, s=1):
        self.w, self.e, self.s = w, e, s

    def __repr__(self):
        return "IT%d(%s*%s)" % (self.w, self.s, self.e)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class FnP:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return "FnP(%s)" % self.fn.dem


class Sym:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class ContRef:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class Raw:
    """Bytes copied through a register with parts that are not a plain integer (padding, pointers)"""
    __slots__ = ("size", "parts")

    def __init__(self, size, parts):
        self.size, self.parts = size, parts


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()
NULL = Ptr(0, 0)


def isint(x):
    return isinstance(x, int)


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def zbv(v):
    """z3 bit-vector of a BV value"""
    if v.w == 1:
        if isint(v.e):
            return z3.BitVecVal(v.e, 1)
        return z3.If(v.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z3.BitVecVal(v.e, v.w) if isint(v.e) else v.e


def zbool(v):
    assert v.w == 1
    return z3.BoolVal(bool(v.e)) if isint(v.e) else v.e


def mkbool(b):
    if isinstance(b, bool):
        return BV(1, int(b))
    b = z3.simplify(b)
    if z3.is_true(b):
        return BV(1, 1)
    if z3.is_false(b):
        return BV(1, 0)
    return BV(1, b)


def mkbv(w, e):
    if w == 1 and not isint(e):
        return mkbool(e if z3.is_bool(e) else e == 1)
    if not isint(e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            e = e.as_long()
    else:
        e &= mask(w)
    return BV(w, e)


def mkit(w, e, s=1):
    if not isint(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            e = e.as_long()
    if isint(e):
        return BV(w, (e * s) & mask(w))
    return IT(w, e, s)


def itval(v):
    """mathematical (signed) z3 Int / Python int value of an IT or a BV"""
    if isinstance(v, IT):
        return v.e * v.s if v.s != 1 else v.e
    if isint(v.e):
        return sgn(v.e, v.w)
    return z3.BV2Int(zbv(v), True)


def zint(x):
    return z3.IntVal(x) if isint(x) else x


def iadd(a, b):
    if isint(a) and isint(b):
        return a + b
    r = z3.simplify(zint(a) + zint(b))
    return r.as_long() if z3.is_int_value(r) else r


def ieq(a, b):
    """True / False / z3 Bool"""
    if isint(a) and isint(b):
        return a == b
    r = z3.simplify(zint(a) == zint(b))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def ilt(a, b):
    if isint(a) and isint(b):
        return a < b
    r = z3.simplify(zint(a) < zint(b))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Obj:
    """Static description of a memory object"""
    __slots__ = ("id", "kind", "name", "size", "text", "esz", "n", "ro", "glob", "ext", "alloc")

    def __init__(self, id, kind, name, size=None):
        self.id, self.kind, self.name, self.size = id, kind, name, size
        self.text = None
        self.esz = 1
        self.n = None
        self.ro = False
        self.glob = None
        self.ext = None
        self.alloc = None


class St:
    __slots__ = ("mem", "pc", "ev", "bounds", "ghost")

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.ev = ()
        self.bounds = None
        self.ghost = {}

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ev = self.ev
        s.bounds = dict(self.bounds) if self.bounds is not None else None
        s.ghost = dict(self.ghost)
        return s


class Ob:
    """One obligation"""
    __slots__ = ("name", "where", "ok", "t", "backend", "model", "note")

    def __init__(self, name, where, ok, t, backend="z3", model=None, note=None):
        self.name, self.where, self.ok, self.t = name, where, ok, t
        self.backend, self.model, self.note = backend, model, note


class Exec:
    def __init__(self, mod, unroll=24):
        self.mod = mod
        self.unroll = unroll
        self.objs = {}
        self.nobj = 0
        self.nsym = 0
        self.obs = []
        self.quiet = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.stack = []
        self.contracts = []      # (regex, handler, label)
        self.models = []         # functions (ex, st, fn, args, inst) -> outcomes | None
        self.inv_loops = set()   # (fn name, header) in invariant mode
        self.loop_handler = None
        self.gobj = {}
        self.named = []          # (name, z3 const) inputs, for counterexamples
        self.nq = 0
        self.tq = 0.0
        self.funcs = set()       # functions executed (inlined)
        self.used_contracts = set()
        self.trusted = set()
        self.ninst = 0
        self.deadline = None
        self.max_paths = 200000
        self.cur = None
        self.assumptions = set()
        self.on_read = None
        self.cand_gens = []
        self.head_hooks = []
        self.strong = False        # more candidates and facts: second try only
        self.fill_values = []
        self.on_value = None
        self.point_hook = None
        self.shift_any = False
        self.xcheck = False
        self.no_merge = False
        self.merge_loops = set()  # unrolled loops whose paths are merged at the header
        self.merge_at = 200
        self.arr_gens = []
        self.extra_idx = []      # (object id, index term) used in candidate invariants
        self.queries = []
        self.summaries = {}
        self.end_octet = None    # (object id, value): the octet after a text may be read (recorded finding)
        self.end_octet_read = False
        self.rope_templates = self.rope_check = self.rope_havoc = None
        self.init_obj()

    def init_obj(self):
        o = Obj(0, "null", "null", 0)
        self.objs[0] = o

    # -- symbols ----------------------------------------------------------
    def fresh(self, base):
        self.nsym += 1
        return "%s!%d" % (base, self.nsym)

    def new_obj(self, kind, name, size=None):
        self.nobj += 1
        o = Obj(self.nobj, kind, name, size)
        self.objs[self.nobj] = o
        return o

    # -- solver -----------------------------------------------------------
    def sync(self, pc):
        s = self.stack
        n = 0
        m = min(len(s), len(pc))
        while n < m and s[n] is pc[n]:
            n += 1
        if len(s) > n:
            self.solver.pop(len(s) - n)
            del s[n:]
        for f in pc[n:]:
            self.solver.push()
            self.solver.add(f)
            s.append(f)

    def check(self, st, extra):
        """sat / unsat / unknown of pc and extra (list of z3 Bools)"""
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget("time budget exhausted")
        self.sync(st.pc)
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        self.nq += 1
        self.tq += time.time() - t
        return r

    def done(self):
        self.solver.pop()

    def feasible(self, st, cond):
        if isinstance(cond, bool):
            return cond
        r = self.check(st, [cond])
        self.done()
        return r != z3.unsat

    def valid(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            cond = z3.BoolVal(False)
        r = self.check(st, [z3.Not(cond)])
        self.done()
        return r == z3.unsat

    def prove(self, st, cond, name, where="", info=None):
        """Record the obligation pc |- cond. Returns True when discharged."""
        if self.quiet:
            return True
        if cond is True:
            self.obs.append(Ob(name, where, True, 0.0, "simplifier"))
            return True
        if cond is False:
            cond = z3.BoolVal(False)
        t = time.time()
        r = self.check(st, [z3.Not(cond)])
        model = None
        if r == z3.unknown:
            reason = self.solver.reason_unknown()
            self.done()
            # second attempt: a fresh solver with full preprocessing
            s = z3.Solver()
            s.set("timeout", 30000)
            for p in st.pc:
                s.add(p)
            s.add(z3.Not(cond))
            r = s.check()
            if r == z3.sat:
                model = self.model_of(s.model())
        else:
            reason = None
            if r == z3.sat:
                model = self.model_of(self.solver.model())
            self.done()
        ok = r == z3.unsat
        if ok and self.xcheck and len(self.queries) < 4000:
            q = z3.Solver()
            for p in st.pc:
                q.add(p)
            q.add(z3.Not(cond))
            self.queries.append(q.to_smt2())
        note = None if ok else ("sat" if r == z3.sat else "unknown: %s" % reason)
        self.obs.append(Ob(name, where, ok, time.time() - t, "z3", model, note))
        if not ok and info:
            self.obs[-1].note += " | " + str(info)
        return ok

    def weed(self, st, fs):
        """indices of the formulas that hold; None where a formula is None"""
        live = []
        keep = set()
        for i, f in enumerate(fs):
            if f is None or f is False:
                continue
            if f is True or z3.is_true(f):
                keep.add(i)
            else:
                live.append(i)
        self.check(st, [])
        s = self.solver
        try:
            while live:
                t = time.time()
                s.push()
                s.add(z3.Not(z3.And(*[fs[i] for i in live])))
                r = s.check()
                self.nq += 1
                if r == z3.unsat:
                    s.pop()
                    self.tq += time.time() - t
                    keep |= set(live)
                    return keep
                if r != z3.sat:
                    s.pop()
                    self.tq += time.time() - t
                    break
                m = s.model()
                nl = [i for i in live if z3.is_true(m.eval(fs[i], model_completion=True))]
                s.pop()
                self.tq += time.time() - t
                if len(nl) == len(live):
                    break
                live = nl
        finally:
            self.done()
        for i in live:
            if self.valid(st, fs[i]):
                keep.add(i)
        return keep

    def prove_all(self, st, items, where):
        """items [(name, formula)]: all at once when possible"""
        if self.quiet:
            return
        fs = [f for n, f in items if f is not True]
        if any(f is None or f is False for f in fs) or not fs:
            ok = not fs
        else:
            t = time.time()
            r = self.check(st, [z3.Not(z3.And(*fs))])
            self.done()
            ok = r == z3.unsat
            if ok and self.xcheck and len(self.queries) < 4000:
                q = z3.Solver()
                for p in st.pc:
                    q.add(p)
                q.add(z3.Not(z3.And(*fs)))
                self.queries.append(q.to_smt2())
        if ok:
            dt = (time.time() - t) / len(items) if fs else 0.0
            for n, f in items:
                self.obs.append(Ob(n, where, True, dt, "simplifier" if f is True else "z3"))
            return
        for n, f in items:
            self.prove(st, f, n, where)

    def model_of(self, m):
        d = {}
        for n, t in self.named:
            try:
                v = m.eval(t, model_completion=True)
                if z3.is_int_value(v) or z3.is_bv_value(v):
                    d[n] = v.as_long()
                else:
                    d[n] = str(v)[:200]
            except z3.Z3Exception:
                pass
        return d

    def oblige(self, st, cond, name, inst=None, where=None):
        """Safety obligation; afterwards cond is assumed. False if the path is dead."""
        if where is None:
            where = self.loc(inst)
        if cond is True:
            if not self.quiet:
                self.obs.append(Ob(name, where, True, 0.0, "simplifier"))
            return True
        if cond is False:
            self.prove(st, False, name, where)
            return False
        ok = self.prove(st, cond, name, where)
        if not ok or self.quiet:
            if not self.feasible(st, cond):
                return False
            st.pc.append(cond)
        return True

    def fail(self, st, name, inst=None, note=None):
        """An obligation that fails on this path unless the path is infeasible"""
        if self.quiet:
            return
        self.prove(st, False, name, self.loc(inst), note)

    def loc(self, inst):
        if inst is None:
            return self.cur or ""
        f = (inst.file or "").split("/")[-1]
        d = inst.fn.dem
        if len(d) > 160:
            d = d[:160] + ".."
        return "%s [%s:%s]" % (d, f, inst.line)

    # -- concretisation ---------------------------------------------------
    def values(self, st, e, limit=64):
        """All feasible values of the z3 term e (bv or int) as [(value, cond)]"""
        out = []
        self.check(st, [])
        s = self.solver
        t = time.time()
        while True:
            r = s.check()
            self.nq += 1
            if r == z3.unsat:
                break
            if r != z3.sat or len(out) >= limit:
                self.done()
                raise Unsupported("cannot enumerate the values of a term")
            v = s.model().eval(e, model_completion=True).as_long()
            out.append(v)
            s.add(e != v)
        self.tq += time.time() - t
        self.done()
        return out

    def concrete(self, st, v, limit=64):
        """Fork on the feasible values of an integer value: [(state, python int (unsigned))]"""
        if isinstance(v, BV):
            if isint(v.e):
                return [(st, v.e)]
            e = zbv(v)
            vals = self.values(st, e, limit)
            w = v.w
        elif isinstance(v, IT):
            e = itval(v)
            vals = self.values(st, e, limit)
            w = v.w
        else:
            raise Unsupported("concrete value of %r" % (v,))
        res = []
        for x in vals:
            s = st if len(vals) == 1 else st.copy()
            if len(vals) > 1:
                s.pc.append(e == x)
            res.append((s, x & mask(w)))
        return res

    def split(self, st, conds):
        """Fork on an exhaustive list of (cond, payload)"""
        res = []
        live = [(c, p) for c, p in conds if c is not False and (c is True or self.feasible(st, c))]
        for c, p in live:
            s = st.copy() if len(live) > 1 else st
            if c is not True and len(live) > 1:
                s.pc.append(c)
            res.append((s, p))
        return res

    # -- pointers ---------------------------------------------------------
    def lens(self, st, text, i):
        """Fork on the encoded length of codepoint i of an UTF-8 text"""
        c = text.cp(i)
        U = z3.ULT
        return self.split(st, [
            (z3.simplify(U(c, 0x80)), 1),
            (z3.simplify(z3.And(z3.UGE(c, 0x80), U(c, 0x800))), 2),
            (z3.simplify(z3.And(z3.UGE(c, 0x800), U(c, 0x10000))), 3),
            (z3.simplify(z3.UGE(c, 0x10000)), 4)])

    def padd(self, st, p, n, esz=1):
        """pointer + n elements of size esz; n is a BV/IT (signed). [(state, Ptr)]"""
        o = self.objs[p.obj]
        if o.kind == "null":
            if isinstance(n, BV) and n.e == 0:
                return [(st, p)]
            raise Unsupported("arithmetic on null")
        if o.kind in ("cells", "const"):
            if isinstance(n, BV) and isint(n.e):
                return [(st, Ptr(p.obj, p.off + sgn(n.e, n.w) * esz))]
            return [(s, Ptr(p.obj, p.off + sgn(v, n.w) * esz)) for s, v in self.concrete(st, n)]
        if o.kind == "arr":
            if isinstance(n, BV) and isint(n.e):
                d = sgn(n.e, n.w) * esz
                if d % o.esz:
                    raise Unsupported("misaligned pointer arithmetic")
                return [(st, Ptr(p.obj, iadd(p.off, d // o.esz)))]
            if isinstance(n, IT):
                s = n.s * esz
                if s % o.esz:
                    raise Unsupported("misaligned pointer arithmetic")
                return [(st, Ptr(p.obj, iadd(p.off, n.e * (s // o.esz))))]
            if esz % o.esz == 0:
                if self.is_small(st, n):
                    return [(s, Ptr(p.obj, iadd(p.off, sgn(v, n.w) * (esz // o.esz))))
                            for s, v in self.concrete(st, n)]
                return [(st, Ptr(p.obj, iadd(p.off, itval(n) * (esz // o.esz))))]
            raise Unsupported("pointer arithmetic")
        if o.kind == "u8text":
            if esz != 1:
                raise Unsupported("octet text addressed with element size %d" % esz)
            if isinstance(n, BV) and isint(n.e):
                return self.move8(st, p, sgn(n.e, n.w))
            if isinstance(n, IT) and n.s == 1:
                q = self.off_move(st, p, n)
                if q is not None:
                    return [(st, q)]
            res = []
            for s, v in self.concrete(st, n):
                res += self.move8(s, p, sgn(v, n.w))
            return res
        raise Unsupported("pointer arithmetic on %s" % o.kind)

    def off_move(self, st, p, n):
        """begin + size (in octets) of a whole text -> its end"""
        o = self.objs[p.obj]
        t = o.text
        i, k = p.off
        if k == 0:
            for j in t.known_idx(self, st, i):
                if self.valid(st, itval(n) == t.OFF(zint(j)) - t.OFF(zint(i))):
                    return Ptr(p.obj, (j, 0))
        return None

    def is_small(self, st, n):
        try:
            return len(self.values(st, zbv(n), 16)) <= 16
        except Unsupported:
            return False

    def move8(self, st, p, d):
        o = self.objs[p.obj]
        t = o.text
        i, k = p.off
        if d == 0:
            return [(st, p)]
        if abs(d) > 64:
            raise Unsupported("large octet offset")
        res = []
        if d > 0:
            for s, l in self.lens(st, t, i):
                if k + d < l:
                    res.append((s, Ptr(p.obj, (i, k + d))))
                else:
                    res += self.move8(s, Ptr(p.obj, (iadd(i, 1), 0)), d - (l - k))
            return res
        if k + d >= 0:
            return [(st, Ptr(p.obj, (i, k + d)))]
        j = iadd(i, -1)
        for s, l in self.lens(st, t, j):
            res += self.move8(s, Ptr(p.obj, (j, l - 1)), d + k + 1)
        return res

    def pdiff(self, st, a, b):
        """a - b in octets: [(state, BV64/IT)]"""
        if a.obj != b.obj:
            raise Unsupported("difference of pointers into different objects")
        o = self.objs[a.obj]
        if o.kind in ("cells", "const", "null"):
            return [(st, BV(64, (a.off - b.off) & M64))]
        if o.kind == "arr":
            d = iadd(a.off, -b.off if isint(b.off) else -b.off)
            return [(st, mkit(64, d, o.esz))]
        if o.kind == "u8text":
            (i, k), (j, l) = a.off, b.off
            d = iadd(i, -j)
            if isint(d) and abs(d) <= 4:
                res = []
                todo = [(st, 0, 0)]
                lo, hi = (j, i) if d >= 0 else (i, j)
                for m in range(abs(d)):
                    nt = []
                    for s, acc, _ in todo:
                        for s2, ln in self.lens(s, o.text, iadd(lo, m)):
                            nt.append((s2, acc + ln, 0))
                    todo = nt
                for s, acc, _ in todo:
                    res.append((s, BV(64, ((acc if d >= 0 else -acc) + k - l) & M64)))
                return res
            t = o.text
            for f in t.off_facts(i, j) + t.step_facts(i, j) + t.step_facts(j, i):
                st.pc.append(f)
            return [(st, mkit(64, t.OFF(zint(i)) + k - t.OFF(zint(j)) - l))]
        raise Unsupported("pointer difference on %s" % o.kind)

    def peq(self, a, b):
        if isinstance(a, (FnP, Sym)) or isinstance(b, (FnP, Sym)):
            if isinstance(a, FnP) and isinstance(b, FnP):
                return a.fn is b.fn
            if isinstance(a, Sym) and isinstance(b, Sym):
                return a.name == b.name
            return False
        if a.obj != b.obj:
            return False
        o = self.objs[a.obj]
        if o.kind == "u8text":
            (i, k), (j, l) = a.off, b.off
            return ieq(i, j) if k == l else False
        return ieq(a.off, b.off)

    def plt(self, a, b):
        if a.obj != b.obj:
            raise Unsupported("comparison of pointers into different objects")
        o = self.objs[a.obj]
        if o.kind == "u8text":
            (i, k), (j, l) = a.off, b.off
            r = ilt(i, j)
            if k < l:
                e = ieq(i, j)
                if r is True or e is True:
                    return True
                return z3.Or(zb(r), zb(e))
            return r
        return ilt(a.off, b.off)

    # -- memory -----------------------------------------------------------
    def alloca(self, st, ty, name):
        o = self.new_obj("cells", name, ty.size)
        st.mem[o.id] = {}
        return Ptr(o.id, 0)

    def global_ptr(self, raw):
        if raw in self.gobj:
            return self.gobj[raw]
        import llvmir as ir
        name = self.mod.globals[raw]
        ty = self.mod.ty(ir.GlobalValTy(raw))
        o = self.new_obj("const", name, ty.size)
        o.glob = (raw, ty)
        const = bool(ir.IsConstG(raw)) or not self.global_written(raw)
        init = ir.Init(raw)
        o.ro = bool(ir.IsConstG(raw))
        if not init or not const:
            o.kind = "mutglobal"
        o.text = self.mod.const(init, ty) if init else None
        p = Ptr(o.id, 0)
        self.gobj[raw] = p
        return p

    def global_written(self, raw):
        """Is there any instruction in the module that may write this global directly?"""
        import llvmir as ir
        if ir.Linkage(raw) not in (8, 9):   # internal, private
            return True
        seen = set()
        todo = [raw]
        while todo:
            v = todo.pop()
            u = ir.FirstUse(v)
            while u:
                w = ir.UserOf(u)
                if w not in seen:
                    seen.add(w)
                    if ir.IsAInst(w):
                        oc = ir.OPC.get(ir.Opcode(w))
                        if oc == "store":
                            if ir.GetOp(w, 1) == v or True:
                                # stored to, or its address escapes into memory
                                if ir.GetOp(w, 1) == v:
                                    return True
                        elif oc in ("gep", "bitcast", "phi", "select"):
                            todo.append(w)
                        elif oc == "call":
                            n = self.mod.byraw.get(ir.Called(w))
                            if n is not None and n.name.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")) \
                                    and ir.GetOp(w, 0) == v:
                                return True
                    else:
                        todo.append(w)
                u = ir.NextUse(u)
        return False

    def const_load(self, o, off, ty, inst, st):
        """Load of type ty at concrete byte offset from a constant initializer"""
        import llvmir as ir
        op, oty = o.text, o.glob[1]
        if off < 0 or off + ty.size > o.size:
            return None
        while True:
            if op.kind == "zero":
                if ty.kind == "int":
                    return BV(ty.width, 0)
                if ty.kind == "ptr":
                    return NULL
                raise Unsupported("aggregate load")
            if op.kind == "agg":
                if oty.kind == "struct":
                    for i, (f, fo) in enumerate(zip(oty.fields, oty.offs)):
                        if fo <= off < fo + f.size:
                            break
                    else:
                        return UNDEF
                    op = self.mod.const(ir.AggEl(op.raw, i), f)
                    oty, off = f, off - fo
                elif oty.kind == "array":
                    i = off // oty.elem.size
                    op = self.mod.const(ir.AggEl(op.raw, i), oty.elem)
                    off -= i * oty.elem.size
                    oty = oty.elem
                else:
                    raise Unsupported("constant of kind " + oty.kind)
                continue
            if off != 0 or oty.size != ty.size:
                raise Unsupported("partial constant load")
            return self.opval(None, op)

    def bounds_ok(self, st, p, size, inst, what):
        o = self.objs[p.obj]
        if o.kind == "null":
            self.fail(st, "memory: %s through a null pointer" % what, inst)
            return False
        if o.id not in st.mem and o.kind not in ("const", "mutglobal"):
            self.fail(st, "memory: %s of an object whose lifetime has ended (%s)" % (what, o.name), inst)
            return False
        if o.kind in ("cells", "const", "mutglobal"):
            if o.size is not None and (p.off < 0 or p.off + size > o.size):
                self.fail(st, "memory: %s inside %s" % (what, o.name), inst)
                return False
            return True
        return True

    def load(self, st, p, ty, inst):
        """[(state, value)]"""
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if ty.kind == "struct":
            outs = [(st, [])]
            for f, o in zip(ty.fields, ty.offs):
                outs = [(s2, vs + [v]) for s1, vs in outs for s0, q in self.padd(s1, p, BV(64, o), 1)
                        for s2, v in self.load(s0, q, f, inst)]
            return [(s, Agg(vs)) for s, vs in outs]
        if not self.bounds_ok(st, p, ty.size, inst, "read"):
            return []
        o = self.objs[p.obj]
        if o.kind == "const":
            return [(st, self.const_load(o, p.off, ty, inst, st))]
        if o.kind == "mutglobal":
            return [(st, self.havoc_val(ty, o.name))]
        if o.kind == "cells":
            return [(st, self.cell_load(st, st.mem[o.id], p.off, ty, o))]
        if o.kind == "arr":
            if ty.size != o.esz or ty.kind != "int":
                raise Unsupported("array element of unexpected size")
            c = z3.And(zint(p.off) >= 0, zint(p.off) < zint(self.arr_n(st, o)))
            if not self.oblige(st, z3.simplify(c), "memory: read inside %s" % o.name, inst):
                return []
            v = self.arr_read(st, o, p.off)
            return [(st, mkbv(ty.width, v))]
        if o.kind == "u8text":
            if ty.kind != "int" or ty.width != 8:
                raise Unsupported("wide read of octet text")
            i, k = p.off
            t = o.text
            res = []
            if self.end_octet and self.end_octet[0] == o.id and k == 0:
                at = ieq(i, t.n)
                inner = None
                for s, b in self.branch(st, at):
                    if b:
                        self.end_octet_read = True
                        res.append((s, self.end_octet[1]))
                    else:
                        inner = s
                if inner is None:
                    return res
                st = inner
            c = z3.And(zint(i) >= 0, zint(i) < zint(t.n))
            if not self.oblige(st, z3.simplify(c), "memory: read inside the text %s" % o.name, inst):
                return res
            t.assume_cp(self, st, i)
            for s, l in self.lens(st, t, i):
                if k >= l:
                    raise Unsupported("octet index beyond its codepoint")
                res.append((s, mkbv(8, t.octet(i, k, l))))
            return res
        raise Unsupported("load from %s" % o.kind)

    def havoc_val(self, ty, base):
        if ty.kind == "int":
            n = self.fresh(base)
            return BV(ty.width, z3.Bool(n) if ty.width == 1 else z3.BitVec(n, ty.width))
        raise Unsupported("unknown pointer value in mutable global " + base)

    def elem(self, st, o, i):
        """element i of a sequence object as a 32 bit term"""
        if o.kind == "u8text":
            return o.text.cp(i)
        if o.kind == "arr" and o.esz == 4:
            return z3.Select(st.mem[o.id][0], zint(i)) if o.id in st.mem else None
        return None

    def obj_n(self, st, o):
        if o.text is not None and o.kind in ("u8text", "arr"):
            return o.text.n
        if o.kind == "arr" and o.id in st.mem:
            return st.mem[o.id][1]
        return None

    def arr_n(self, st, o):
        c = st.mem[o.id]
        return c[1]

    def arr_read(self, st, o, i):
        a = st.mem[o.id][0]
        r = z3.Select(a, zint(i))
        if self.on_read:
            self.on_read(self, st, o, i, r)
        if z3.is_quantifier(a) or z3.is_store(a):
            r = self.decided(st, z3.simplify(r))
            if self.on_value:
                self.on_value(self, st, r)
        return r

    def decided(self, st, r):
        """r with the conditions that the path condition decides resolved"""
        while z3.is_app_of(r, z3.Z3_OP_ITE):
            c = r.arg(0)
            if self.valid(st, c):
                r = r.arg(1)
            elif self.valid(st, z3.Not(c)):
                r = r.arg(2)
            else:
                break
        return r

    def cell_load(self, st, cells, off, ty, o):
        c = cells.get(off)
        if c is not None and isinstance(c[1], Raw):
            raise Unsupported("raw cell")
        if c is not None and c[0] == ty.size:
            v = c[1]
            return self.retype(v, ty)
        if c is None:
            over = [(q, s) for q, (s, _) in cells.items() if q < off + ty.size and off < q + s]
            if not over:
                if o.ext == "opaque":
                    raise Unsupported("read of unmodelled memory in " + o.name)
                return UNDEF
        if ty.kind == "int" and ty.width % 8 == 0:
            inside = [(q, s, v) for q, (s, v) in cells.items() if q < off + ty.size and off < q + s]
            cov = sum(s for q, s, v in inside)
            if all(q >= off and q + s <= off + ty.size for q, s, v in inside) and \
                    (cov < ty.size or any(not isinstance(v, BV) for q, s, v in inside)):
                return Raw(ty.size, [(q - off, s, v) for q, s, v in inside])
            return self.bytes_val([self.byte_at(cells, off + i) for i in range(ty.size)])
        raise Unsupported("mixed-size load of %s at %s from %s" % (ty.kind + str(ty.size), off, cells))

    def retype(self, v, ty):
        if isinstance(v, (Raw, Agg)):
            raise Unsupported("raw bytes reinterpreted")
        if isinstance(v, BV) and ty.kind == "int" and v.w != ty.width:
            if ty.width < v.w:
                return self.do_trunc(v, ty.width)
            raise Unsupported("retype")
        if ty.kind == "ptr" and isinstance(v, BV):
            if v.e == 0:
                return NULL
            raise Unsupported("integer read as pointer")
        if ty.kind == "int" and isinstance(v, Ptr):
            return PInt(v)
        if ty.kind == "ptr" and isinstance(v, PInt):
            return v.p
        return v

    def byte_at(self, cells, off):
        for q, (s, v) in cells.items():
            if q <= off < q + s:
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, BV):
                    if isint(v.e):
                        return BV(8, (v.e >> (8 * (off - q))) & 0xFF)
                    if v.w == 8:
                        return v
                    if v.w > 8:
                        k = off - q
                        return mkbv(8, z3.Extract(8 * k + 7, 8 * k, v.e))
                raise Unsupported("byte of a pointer or counter")
        return UNDEF

    def bytes_val(self, bs):
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isint(b.e) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b.e << (8 * i)
            return BV(8 * len(bs), v)
        if len(bs) == 1:
            return bs[0]
        return mkbv(8 * len(bs), z3.Concat(*[zbv(b) for b in reversed(bs)]))

    def cell_store(self, st, oid, off, size, v):
        if isinstance(v, Raw):
            self.cell_store(st, oid, off, size, UNDEF)
            c = dict(st.mem[oid])
            del c[off]
            for q, s, x in v.parts:
                c[off + q] = (s, x)
            st.mem[oid] = c
            return
        cells = dict(st.mem[oid])
        if off in cells and cells[off][0] == size:
            cells[off] = (size, v)
        else:
            over = [(q, s) for q, (s, _) in cells.items() if q < off + size and off < q + s]
            for q, s in over:
                if q >= off and q + s <= off + size:
                    del cells[q]
                else:
                    old = cells.pop(q)
                    tmp = {q: old}
                    for b in range(q, q + s):
                        if not (off <= b < off + size):
                            cells[b] = (1, self.byte_at(tmp, b))
            cells[off] = (size, v)
        st.mem[oid] = cells

    def store(self, st, p, v, ty, inst):
        """[state]"""
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if ty.kind == "struct":
            vals = [UNDEF] * len(ty.fields) if v is UNDEF else v.v
            outs = [st]
            for f, o, x in zip(ty.fields, ty.offs, vals):
                outs = [s2 for s1 in outs for s0, q in self.padd(s1, p, BV(64, o), 1)
                        for s2 in self.store(s0, q, x, f, inst)]
            return outs
        if not self.bounds_ok(st, p, ty.size, inst, "write"):
            return []
        o = self.objs[p.obj]
        if o.ro or o.kind == "const" and o.ro:
            self.fail(st, "memory: write to constant %s" % o.name, inst)
            return []
        if o.kind == "cells":
            self.cell_store(st, o.id, p.off, ty.size, v)
            return [st]
        if o.kind == "arr":
            if ty.size != o.esz or ty.kind != "int":
                raise Unsupported("array element of unexpected size")
            if v is UNDEF:
                self.fail(st, "initialised value stored in %s" % o.name, inst)
                return []
            c = z3.And(zint(p.off) >= 0, zint(p.off) < zint(self.arr_n(st, o)))
            if not self.oblige(st, z3.simplify(c), "memory: write inside %s" % o.name, inst):
                return []
            a, n = st.mem[o.id][:2]
            st.mem[o.id] = (z3.Store(a, zint(p.off), zbv(self.as_bv(v))), n) + tuple(st.mem[o.id][2:])
            return [st]
        if o.kind in ("mutglobal", "const"):
            # the content is not tracked: reads are arbitrary
            o.kind = "mutglobal"
            return [st]
        if o.kind == "u8text":
            self.fail(st, "memory: text %s is not modified" % o.name, inst)
            return []
        raise Unsupported("store to %s" % o.kind)

    def as_bv(self, v):
        if isinstance(v, IT):
            return BV(v.w, z3.Int2BV(itval(v), v.w))
        return v

    def memcpy(self, st, d, s, n, inst):
        if not (isinstance(n, BV) and isint(n.e)):
            r = []
            for s2, v in self.concrete(st, n):
                r += self.memcpy(s2, d, s, BV(64, v), inst)
            return r
        n = n.e
        if n == 0:
            return [st]
        if not self.bounds_ok(st, s, n, inst, "read") or not self.bounds_ok(st, d, n, inst, "write"):
            return []
        so, do = self.objs[s.obj], self.objs[d.obj]
        if do.kind == "cells" and so.kind == "cells":
            src = st.mem[so.id]
            parts = []
            for q, (sz, v) in src.items():
                if q >= s.off and q + sz <= s.off + n:
                    parts.append((q - s.off, sz, v))
                elif q < s.off + n and s.off < q + sz:
                    for b in range(max(q, s.off), min(q + sz, s.off + n)):
                        parts.append((b - s.off, 1, self.byte_at(src, b)))
            self.cell_store(st, do.id, d.off, n, UNDEF)
            c = dict(st.mem[do.id])
            del c[d.off]
            for q, sz, v in parts:
                if isinstance(v, ContRef):
                    raise Unsupported("memcpy of a string object")
                c[d.off + q] = (sz, v)
            st.mem[do.id] = c
            return [st]
        if do.kind == "cells" and so.kind in ("const", "u8text", "arr"):
            # element by element
            esz = so.esz if so.kind == "arr" else 1
            if so.kind == "const":
                esz = 4 if n % 4 == 0 and s.off % 4 == 0 and so.glob[1].kind == "array" and so.glob[1].elem.size == 4 else 1
                if so.glob[1].kind == "array" and so.glob[1].elem.kind == "ptr":
                    esz = 8
            if n % esz:
                raise Unsupported("memcpy size")
            t = _T(8 * esz)
            states = [(st, s)]
            for k in range(n // esz):
                nxt = []
                for s1, p in states:
                    for s2, v in self.load(s1, p, t, inst):
                        self.cell_store(s2, do.id, d.off + k * esz, esz, v)
                        for s3, p2 in self.padd(s2, p, BV(64, 1), esz):
                            nxt.append((s3, p2))
                states = nxt
            return [x for x, _ in states]
        raise Unsupported("memcpy %s <- %s" % (do.kind, so.kind))

    # -- operands ---------------------------------------------------------
    def opval(self, regs, op):
        k = op.kind
        if k == "reg":
            return regs[op.val]
        if k == "const":
            return BV(op.ty.width, op.val)
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "fn":
            return FnP(op.val)
        if k == "global":
            return self.global_ptr(op.val)
        if k == "zero":
            if op.ty.kind == "int":
                return BV(op.ty.width, 0)
            if op.ty.kind == "struct":
                return Agg([self.zero(t) for t in op.ty.fields])
        if k == "agg" and op.ty.kind == "struct":
            import llvmir as ir
            return Agg([self.opval(None, self.mod.const(ir.AggEl(op.raw, i))) for i in range(len(op.ty.fields))])
        if k == "ce":
            import llvmir as ir
            oc, raw = op.val
            if oc == "gep":
                base = self.opval(None, self.mod.const(ir.GetOp(raw, 0)))
                off = self.gep_const(self.mod.ty(ir.GEPTy(raw)),
                                     [self.mod.const(ir.GetOp(raw, i)) for i in range(1, ir.NumOps(raw))])
                return Ptr(base.obj, base.off + off)
            if oc == "bitcast":
                return self.opval(None, self.mod.const(ir.GetOp(raw, 0)))
        raise Unsupported("operand kind %s" % k)

    def zero(self, t):
        return BV(t.width, 0) if t.kind == "int" else NULL

    def gep_const(self, ty, idx):
        off = 0
        for n, i in enumerate(idx):
            v = sgn(i.val, i.ty.width)
            if n == 0:
                off += v * ty.size
            elif ty.kind == "struct":
                off += ty.offs[v]
                ty = ty.fields[v]
            else:
                ty = ty.elem
                off += v * ty.size
        return off

    # -- integer operations ----------------------------------------------
    def do_trunc(self, v, w):
        if isinstance(v, IT):
            if w < 32:
                raise Unsupported("truncation of a counter to i%d" % w)
            self.assumptions.add("lengths and counters fit their machine integers (no wrap-around)")
            return IT(w, v.e, v.s)
        if isint(v.e):
            return BV(w, v.e & mask(w))
        if w == 1:
            return mkbool(z3.Extract(0, 0, zbv(v)) == 1)
        return mkbv(w, z3.Extract(w - 1, 0, zbv(v)))

    def do_ext(self, v, w, signed):
        if isinstance(v, IT):
            self.assumptions.add("lengths and counters fit their machine integers (no wrap-around)")
            return IT(w, v.e, v.s)
        if isint(v.e):
            return BV(w, (sgn(v.e, v.w) if signed else v.e) & mask(w))
        if v.w == 1:
            one = z3.BitVecVal(mask(w) if signed else 1, w)
            return mkbv(w, z3.If(v.e, one, z3.BitVecVal(0, w)))
        return mkbv(w, z3.SignExt(w - v.w, v.e) if signed else z3.ZeroExt(w - v.w, v.e))

    def binop(self, st, op, a, b, inst):
        """[(state, value)]"""
        if a is UNDEF or b is UNDEF:
            self.fail(st, "initialised operand", inst)
            return []
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                return self.pdiff(st, a.p, b.p)
            if op == "add":
                if isinstance(b, PInt):
                    a, b = b, a
                return [(s, PInt(p)) for s, p in self.padd(st, a.p, b, 1)]
            if op == "sub" and isinstance(a, PInt):
                nb = self.binop(st, "sub", BV(64, 0), b, inst)
                return [(s2, PInt(p)) for s, v in nb for s2, p in self.padd(s, a.p, v, 1)]
            raise Unsupported("arithmetic on a pointer value")
        if isinstance(a, IT) or isinstance(b, IT):
            return [(st, self.it_op(st, op, a, b, inst))]
        w = a.w
        if isint(a.e) and isint(b.e):
            x, y = a.e, b.e
            sx, sy = sgn(x, w), sgn(y, w)
            if op in ("shl", "lshr", "ashr"):
                if self.shift_any and y >= w:
                    return [(st, BV(w, z3.BitVec(self.fresh("shift"), w)))]
                if not self.oblige(st, y < w, "shift amount below the width", inst):
                    return []
            if op in ("udiv", "sdiv", "urem", "srem"):
                if not self.oblige(st, y != 0, "division by a non-zero value", inst):
                    return []
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                 "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                 "shl": lambda: x << y, "lshr": lambda: x >> y, "ashr": lambda: sx >> y,
                 "udiv": lambda: x // y, "urem": lambda: x % y,
                 "sdiv": lambda: int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1),
                 "srem": lambda: (abs(sx) % abs(sy)) * (1 if sx >= 0 else -1)}[op]()
            return [(st, BV(w, r & mask(w)))]
        if w == 1:
            x, y = zbool(a), zbool(b)
            r = {"and": lambda: z3.And(x, y), "or": lambda: z3.Or(x, y), "xor": lambda: z3.Xor(x, y)}.get(op)
            if r is None:
                raise Unsupported("i1 " + op)
            return [(st, mkbool(r()))]
        x, y = zbv(a), zbv(b)
        if op in ("shl", "lshr", "ashr"):
            if self.shift_any:
                if not (isint(b.e) and b.e < w) and not self.valid(st, z3.ULT(y, w)):
                    return [(st, BV(w, z3.BitVec(self.fresh("shift"), w)))]
            elif not self.oblige(st, True if isint(b.e) and b.e < w else z3.ULT(y, w), "shift amount below the width", inst):
                return []
        if op in ("udiv", "sdiv", "urem", "srem"):
            if not self.oblige(st, True if isint(b.e) and b.e else y != 0, "division by a non-zero value", inst):
                return []
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
             "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
             "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
             "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
             "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}.get(op)
        if r is None:
            raise Unsupported("operation " + op)
        return [(st, mkbv(w, r()))]

    def it_op(self, st, op, a, b, inst):
        w = a.w
        self.assumptions.add("lengths and counters fit their machine integers (no wrap-around)")

        def parts(v):
            return (v.e, v.s) if isinstance(v, IT) else (itval(v), 1)
        if op in ("add", "sub"):
            (x, s), (y, t) = parts(a), parts(b)
            if s != t:
                if isint(y) and isinstance(b, BV) and y % s == 0:
                    y, t = y // s, s
                elif isint(x) and isinstance(a, BV) and x % t == 0:
                    x, s = x // t, t
                else:
                    x, y, s = zint(x) * s, zint(y) * t, 1
            return mkit(w, zint(x) + zint(y) if op == "add" else zint(x) - zint(y), s)
        if op == "mul" and isinstance(b, BV) and isint(b.e):
            return IT(w, a.e, a.s * sgn(b.e, w))
        if op == "mul" and isinstance(a, BV) and isint(a.e):
            return IT(w, b.e, b.s * sgn(a.e, w))
        if op == "shl" and isinstance(b, BV) and isint(b.e) and b.e < 32:
            return IT(w, a.e, a.s << b.e)
        if op in ("sdiv", "udiv") and isinstance(b, BV) and isint(b.e) and b.e and isinstance(a, IT):
            d = sgn(b.e, w)
            if a.s % d == 0:
                return mkit(w, a.e, a.s // d)
            if d == 1:
                return a
            v = itval(a)
            self.oblige(st, v >= 0, "non-negative dividend", inst)
            return mkit(w, v / d)
        if op in ("ashr", "lshr") and isinstance(b, BV) and isint(b.e) and isinstance(a, IT):
            d = 1 << b.e
            if a.s % d == 0:
                return mkit(w, a.e, a.s // d)
            v = itval(a)
            self.oblige(st, v >= 0, "non-negative dividend", inst)
            return mkit(w, v / d)
        if op in ("urem", "srem") and isinstance(b, BV) and isint(b.e) and b.e and isinstance(a, IT):
            v = itval(a)
            self.oblige(st, v >= 0, "non-negative dividend", inst)
            return mkit(w, v % b.e)
        raise Unsupported("operation %s on a counter" % op)

    def icmp(self, st, pred, a, b, inst):
        """python bool / z3 Bool, or None when the path is dead"""
        if a is UNDEF or b is UNDEF:
            self.fail(st, "initialised operand", inst)
            return None
        if isinstance(a, PInt) and isinstance(b, PInt):
            a, b = a.p, b.p
        if isinstance(a, (Ptr, FnP, Sym)) and isinstance(b, (Ptr, FnP, Sym)):
            if pred == "eq":
                return self.peq(a, b)
            if pred == "ne":
                r = self.peq(a, b)
                return (not r) if isinstance(r, bool) else z3.Not(r)
            if pred in ("ult", "slt"):
                return self.plt(a, b)
            if pred in ("ugt", "sgt"):
                return self.plt(b, a)
            r = self.plt(b, a) if pred in ("ule", "sle") else self.plt(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(a, (Ptr, FnP, Sym, PInt)) or isinstance(b, (Ptr, FnP, Sym, PInt)):
            raise Unsupported("comparison of pointer and integer")
        if isinstance(a, IT) or isinstance(b, IT):
            x, y = itval(a), itval(b)
            if pred[0] == "u":
                for v in (x, y):
                    if isint(v):
                        if v < 0:
                            # a huge unsigned constant (npos, max_size)
                            self.assumptions.add("lengths and counters fit their machine integers (no wrap-around)")
                            big = x is v
                            return {"ult": not big, "ule": not big, "ugt": big, "uge": big}[pred]
                    elif not self.oblige(st, v >= 0, "non-negative operand of an unsigned comparison", inst):
                        return None
            x, y = zint(x), zint(y)
            r = {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y,
                 "gt": lambda: x > y, "ge": lambda: x >= y}[pred if pred in ("eq", "ne") else pred[1:]]()
            r = z3.simplify(r)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        w = a.w
        if isint(a.e) and isint(b.e):
            x, y = a.e, b.e
            if pred[0] == "s":
                x, y = sgn(x, w), sgn(y, w)
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[
                pred if pred in ("eq", "ne") else pred[1:]]
        if w == 1:
            x, y = zbool(a), zbool(b)
            if pred == "eq":
                r = x == y
            elif pred == "ne":
                r = x != y
            else:
                raise Unsupported("ordered comparison of i1")
        else:
            x, y = zbv(a), zbv(b)
            r = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
                 "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
                 "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()
        r = z3.simplify(r)
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    # -- branching --------------------------------------------------------
    def branch(self, st, c):
        """[(state, bool)] for a condition"""
        if isinstance(c, bool):
            return [(st, c)]
        q = self.quick(st, c)
        if q is not None:
            return q
        t = self.feasible(st, c)
        f = self.feasible(st, z3.Not(c)) if t else True
        if t and f:
            s2 = st.copy()
            st.pc.append(c)
            s2.pc.append(z3.Not(c))
            return [(st, True), (s2, False)]
        return [(st, bool(t))]

    def quick(self, st, c):
        """Interval reasoning for `symbol cmp constant` when the path condition
        consists of such comparisons only (table searches)"""
        if st.bounds is None:
            return None
        neg = False
        d = c
        while z3.is_not(d):
            d = d.arg(0)
            neg = not neg
        n = d.num_args()
        if n != 2:
            st.bounds = None
            return None
        a, b = d.arg(0), d.arg(1)
        k = d.decl().kind()
        flip = False
        if z3.is_bv_value(a):
            a, b = b, a
            flip = True
        lin = self.linear(st, a) if z3.is_bv_value(b) else None
        if lin is None:
            st.bounds = None
            return None
        if flip:
            k = {z3.Z3_OP_SLEQ: z3.Z3_OP_SGEQ, z3.Z3_OP_SGEQ: z3.Z3_OP_SLEQ, z3.Z3_OP_SLT: z3.Z3_OP_SGT,
                 z3.Z3_OP_SGT: z3.Z3_OP_SLT, z3.Z3_OP_ULEQ: z3.Z3_OP_UGEQ, z3.Z3_OP_UGEQ: z3.Z3_OP_ULEQ,
                 z3.Z3_OP_ULT: z3.Z3_OP_UGT, z3.Z3_OP_UGT: z3.Z3_OP_ULT}.get(k, k)
        sign, key, off = lin
        w = b.size()
        v, sv, H = b.as_long(), b.as_signed_long(), 1 << (w - 1)
        # the values of the term that satisfy the comparison: [x, x + m), modulo 2^w
        x, m = {z3.Z3_OP_EQ: (v, 1), z3.Z3_OP_SLEQ: (-H, sv + H + 1), z3.Z3_OP_SLT: (-H, sv + H),
                z3.Z3_OP_SGEQ: (sv, H - sv), z3.Z3_OP_SGT: (sv + 1, H - sv - 1), z3.Z3_OP_ULEQ: (0, v + 1),
                z3.Z3_OP_ULT: (0, v), z3.Z3_OP_UGEQ: (v, 2 * H - v), z3.Z3_OP_UGT: (v + 1, 2 * H - v - 1)}.get(k, (0, -1))
        if m < 0:
            st.bounds = None
            return None
        lo, hi, sym = st.bounds[key]
        # the values of the symbol: [x, x + m), modulo 2^w, then as signed intervals
        x = x - off if sign > 0 else off - x - m + 1
        x = (x + H) % (2 * H) - H
        yes = [(x, min(x + m - 1, H - 1))] + ([(-H, x + m - 1 - 2 * H)] if x + m - 1 >= H else [])
        yes = sorted((max(l, lo), min(h, hi)) for l, h in yes if m and max(l, lo) <= min(h, hi))
        r = []
        y = lo
        for l, h in yes:
            if y < l:
                r.append((False, y, l - 1))
            r.append((True, l, h))
            y = h + 1
        if y <= hi:
            r.append((False, y, hi))
        out = []
        for i, (val, l, h) in enumerate(r):
            s = st if i == len(r) - 1 else st.copy()
            s.bounds = dict(s.bounds)
            s.bounds[key] = (l, h, sym)
            if len(r) == 2 and len(yes) == 1:
                s.pc.append(c if val != neg else z3.Not(c))
            elif len(r) > 1:
                s.pc.append(z3.And(sym >= l, sym <= h))
            out.append((s, val != neg))
        return out

    def linear(self, st, t):
        """t as sign * symbol + offset, for a symbol with known bounds: (sign, key, offset)"""
        off = 0
        if z3.is_app_of(t, z3.Z3_OP_BADD) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            off, t = t.arg(0).as_long(), t.arg(1)
        sign = 1
        if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and \
                t.arg(0).as_signed_long() == -1:
            sign, t = -1, t.arg(1)
        elif z3.is_app_of(t, z3.Z3_OP_BNEG):
            sign, t = -1, t.arg(0)
        if z3.is_const(t) and t.get_id() in st.bounds:
            return sign, t.get_id(), off
        return None

    # -- functions --------------------------------------------------------
    def call(self, name, args, st):
        fn = self.mod.fn(name)
        if fn is None or fn.decl:
            raise Unsupported("function %s is not defined" % name)
        return self.exec_fn(st, fn, args, 0)

    def exec_fn(self, st, fn, args, depth):
        self.mod.prep(fn)
        if depth > 60:
            raise Unsupported("call depth")
        self.funcs.add(fn.dem)
        regs = {}
        for n, a in zip(fn.params, args):
            regs[n] = a
        if len(args) != len(fn.params):
            raise Unsupported("argument count of " + fn.dem)
        allocs = []
        rets, exits, backs = self.run(fn, [(st, regs, 0, -1, {})], depth, allocs)
        res = []
        own = set(allocs)
        for s, v in rets:
            for a in own:
                s.mem.pop(a, None)
            res.append((s, v))
        if not self.no_merge and fn.retty.kind == "int" and fn.retty.width == 1 and \
                (len(res) > 2 or len(res) == 2 and not all(isinstance(v, BV) and isint(v.e) for _, v in res)):
            res = self.merge(res, len(st.pc))
        return res

    def merge(self, res, base):
        """Merge return paths that have the same memory"""
        groups = []
        for s, v in res:
            if v is UNDEF:
                return res
            for g in groups:
                s0 = g[0][0]
                if s0.ev is s.ev and s0.ghost == s.ghost and same_mem(s0.mem, s.mem):
                    g.append((s, v))
                    break
            else:
                groups.append([(s, v)])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            s0 = g[0][0]
            k = min(len(s.pc) for s, _ in g)
            n = 0
            while n < k and all(s.pc[n] is s0.pc[n] for s, _ in g):
                n += 1
            pre = s0.pc[:n]
            conds = [z3.And(*s.pc[n:]) if len(s.pc) > n + 1 else (s.pc[n] if len(s.pc) > n else z3.BoolVal(True))
                     for s, _ in g]
            r = z3.Or(*[c for c, (s, v) in zip(conds, g) if not (isint(v.e) and v.e == 0)
                        for c in [z3.And(c, zbool(v)) if not isint(v.e) else c]])
            ns = s0.copy()
            ns.bounds = None
            ns.pc = pre + [z3.Or(*conds)]
            out.append((ns, mkbool(r)))
        return out

    def run(self, fn, items, depth, allocs, region=None, header=None):
        """Execute blocks. items: (state, regs, block, pred, visits).
        Returns (rets, exits, backs); exits/backs are items."""
        rets, exits, backs = [], [], []
        stack = list(items)
        pool, ready, visits = {}, [], {}
        while stack or pool or ready:
            if not stack and not ready:
                # the innermost loop first, the least number of iterations first
                ready = self.merge_items(fn, pool.pop(min(pool)))
            merged = not stack
            st, regs, b, pred, vis = stack.pop() if stack else ready.pop()
            if region is not None and pred != -2:
                if b == header:
                    backs.append((st, regs, b, pred, vis))
                    continue
                if b not in region:
                    exits.append((st, regs, b, pred, vis))
                    continue
            if b in fn.loops and pred != -2:
                key = (fn.name, b)
                inside = pred in fn.loops[b]
                if key in self.inv_loops:
                    if inside:
                        raise Unsupported("loop entered from inside")
                    r, ex = self.loop_handler(self, fn, st, regs, b, pred, depth, allocs)
                    rets += r
                    for it in ex:
                        stack.append(it)
                    continue
                if inside and key in self.merge_loops and not merged:
                    k = vis.get(b, 0)
                    pool.setdefault((len(fn.loops[b]), k, b, pred), []).append((st, regs, b, pred, vis))
                    continue
                vis = dict(vis)
                vis[b] = (vis.get(b, 0) if inside else 0) + 1
                if vis[b] > self.unroll:
                    raise NeedInvariant(key)
                if inside and not self.no_merge:
                    visits[key] = n = visits.get(key, 0) + 1
                    if n > self.merge_at and key not in self.merge_loops:
                        raise NeedMerge(key)
            self.block(fn, st, regs, b, pred, vis, depth, allocs, stack, rets)
            if len(stack) + len(rets) > self.max_paths:
                raise Unsupported("too many paths")
        return rets, exits, backs

    def merge_items(self, fn, items):
        """Join the paths that are at the same place (same block, same number of
        iterations) and differ in booleans, octets of arrays and symbolic integers only"""
        groups = []
        for it in items:
            for g in groups:
                if self.joinable(fn, g[0], it):
                    g.append(it)
                    break
            else:
                groups.append([it])
        return [self.join(g) if len(g) > 1 else g[0] for g in groups]

    def joinable(self, fn, x, y):
        (s, r, _, _, v), (t, q, _, _, w) = x, y
        if s.ev is not t.ev or s.ghost != t.ghost or v != w or s.mem.keys() != t.mem.keys() or \
                (s.bounds is None) != (t.bounds is None) or s.bounds is not None:
            return False
        for k in r.keys() & q.keys():
            if r[k] is not q[k] and k in fn.cross and not same_val(r[k], q[k]):
                return False
        for k, a in s.mem.items():
            b = t.mem[k]
            if a is b:
                continue
            if isinstance(a, dict) and isinstance(b, dict):
                if a.keys() != b.keys():
                    return False
                for o, (n, c) in a.items():
                    m, d = b[o]
                    if n != m or not (same_val(c, d) or joinval(c, d)):
                        return False
            elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2:
                if not (z3.is_array(a[0]) and z3.is_array(b[0]) and a[0].sort() == b[0].sort()):
                    return False
                if not (a[1] is b[1] or isint(a[1]) and isint(b[1]) and a[1] == b[1] or
                        not isint(a[1]) and not isint(b[1]) and a[1].eq(b[1])):
                    return False
            else:
                return False
        return True

    def join(self, g):
        ids = set.intersection(*[{f.get_id() for f in it[0].pc} for it in g])
        s0, r0, b, pred, vis = g[0]
        ns = s0.copy()
        ns.pc = [f for f in s0.pc if f.get_id() in ids]
        conds = []
        for it in g:
            own = [f for f in it[0].pc if f.get_id() not in ids]
            conds.append(z3.And(*own) if len(own) > 1 else own[0] if own else z3.BoolVal(True))
        ns.pc.append(z3.Or(*conds))

        def ite(vs):
            r = vs[-1]
            for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                r = v if v is r or v.eq(r) else z3.If(c, v, r)
            return r
        for k, a in s0.mem.items():
            ms = [it[0].mem[k] for it in g]
            if all(m is a for m in ms):
                continue
            if isinstance(a, dict):
                d = {}
                for o, (n, c) in a.items():
                    cs = [m[o][1] for m in ms]
                    d[o] = (n, c) if all(same_val(c, x) for x in cs) else \
                        (n, mkbool(ite([zbool(x) for x in cs])) if c.w == 1 else mkbv(c.w, ite([zbv(x) for x in cs])))
                ns.mem[k] = d
            else:
                ns.mem[k] = (ite([m[0] for m in ms]), a[1])
        regs = {k: v for k, v in r0.items() if all(k in it[1] for it in g)}
        return ns, regs, b, pred, vis

    def phis(self, fn, st, regs, b, pred):
        vals = []
        for x in fn.blocks[b].insts:
            if x.op != "phi":
                break
            for pb, op in x.x:
                if pb == pred:
                    vals.append((x.id, self.opval(regs, op)))
                    break
            else:
                raise Unsupported("phi")
        for i, v in vals:
            regs[i] = v

    def block(self, fn, st, regs, b, pred, vis, depth, allocs, stack, rets):
        if pred >= 0:
            self.phis(fn, st, regs, b, pred)
        work = [(st, regs, 0)]
        insts = fn.blocks[b].insts
        while work:
            st, regs, k = work.pop()
            n = len(insts)
            while k < n:
                x = insts[k]
                op = x.op
                k += 1
                self.ninst += 1
                if op == "phi":
                    continue
                if op == "br":
                    if len(x.x) == 1:
                        stack.append((st, regs, x.x[0], b, vis))
                    else:
                        c = self.opval(regs, x.ops[0])
                        if c is UNDEF:
                            self.fail(st, "initialised branch condition", x)
                            break
                        c = bool(c.e) if isint(c.e) else c.e
                        brs = self.branch(st, c)
                        for j, (s, v) in enumerate(brs):
                            r = regs if j == len(brs) - 1 else dict(regs)
                            stack.append((s, r, x.x[0] if v else x.x[1], b, vis))
                    break
                if op == "ret":
                    rets.append((st, self.opval(regs, x.ops[0]) if x.ops else None))
                    break
                if op == "switch":
                    v = self.opval(regs, x.ops[0])
                    if v is UNDEF:
                        self.fail(st, "initialised switch operand", x)
                        break
                    self.do_switch(st, regs, v, x, b, vis, stack)
                    break
                if op == "unreachable":
                    self.fail(st, "unreachable code is not reached", x)
                    break
                outs = self.step(fn, st, regs, x, depth, allocs)
                if not outs:
                    break
                s0, v0 = outs[0]
                for s, v in outs[1:]:
                    r = dict(regs)
                    r[x.id] = v
                    work.append((s, r, k))
                st = s0
                regs[x.id] = v0

    def do_switch(self, st, regs, v, x, b, vis, stack):
        dflt, cases = x.x
        if isinstance(v, BV) and isint(v.e):
            for c, d in cases:
                if c == v.e:
                    stack.append((st, regs, d, b, vis))
                    return
            stack.append((st, regs, dflt, b, vis))
            return
        if isinstance(v, IT):
            e = itval(v)
        else:
            e = zbv(v)
        conds = [(e == c, d) for c, d in cases]
        conds.append((z3.And(*[e != c for c, _ in cases]), dflt))
        st.bounds = None
        for s, d in self.split(st, conds):
            stack.append((s, dict(regs), d, b, vis))

    def step(self, fn, st, regs, x, depth, allocs):
        op = x.op
        if op == "alloca":
            p = self.alloca(st, x.x, "%s.%s" % (fn.dem.split("(")[0][-40:], x.id))
            allocs.append(p.obj)
            return [(st, p)]
        if op == "load":
            p = self.opval(regs, x.ops[0])
            if p is UNDEF:
                self.fail(st, "initialised pointer", x)
                return []
            return self.load(st, p, x.ty, x)
        if op == "store":
            v = self.opval(regs, x.ops[0])
            p = self.opval(regs, x.ops[1])
            if p is UNDEF:
                self.fail(st, "initialised pointer", x)
                return []
            return [(s, None) for s in self.store(st, p, v, x.ops[0].ty, x)]
        if op == "gep":
            return self.do_gep(st, regs, x)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            return self.binop(st, op, self.opval(regs, x.ops[0]), self.opval(regs, x.ops[1]), x)
        if op == "icmp":
            a, b = self.opval(regs, x.ops[0]), self.opval(regs, x.ops[1])
            r = self.icmp(st, x.x, a, b, x)
            if r is None:
                return []
            if st.bounds is not None and not isinstance(r, bool):
                q = self.quick(st, r)
                if q is not None:
                    return [(s, BV(1, int(v))) for s, v in q]
            return [(st, BV(1, int(r)) if isinstance(r, bool) else BV(1, r))]
        if op in ("zext", "sext", "trunc"):
            v = self.opval(regs, x.ops[0])
            if v is UNDEF:
                return [(st, UNDEF)]
            if isinstance(v, PInt):
                raise Unsupported("resized pointer value")
            if op == "trunc":
                return [(st, self.do_trunc(v, x.ty.width))]
            return [(st, self.do_ext(v, x.ty.width, op == "sext"))]
        if op == "ptrtoint":
            v = self.opval(regs, x.ops[0])
            return [(st, UNDEF if v is UNDEF else PInt(v))]
        if op == "inttoptr":
            v = self.opval(regs, x.ops[0])
            if isinstance(v, PInt):
                return [(st, v.p)]
            if isinstance(v, BV) and v.e == 0:
                return [(st, NULL)]
            if v is UNDEF:
                return [(st, UNDEF)]
            if isinstance(v, Ptr):
                return [(st, v)]
            raise Unsupported("inttoptr")
        if op in ("bitcast", "freeze", "addrspacecast"):
            return [(st, self.opval(regs, x.ops[0]))]
        if op == "select":
            c = self.opval(regs, x.ops[0])
            if c is UNDEF:
                self.fail(st, "initialised select condition", x)
                return []
            a, b = self.opval(regs, x.ops[1]), self.opval(regs, x.ops[2])
            if isint(c.e):
                return [(st, a if c.e else b)]
            if isinstance(a, BV) and isinstance(b, BV):
                if a.w == 1:
                    return [(st, mkbool(z3.If(c.e, zbool(a), zbool(b))))]
                return [(st, mkbv(a.w, z3.If(c.e, zbv(a), zbv(b))))]
            if isinstance(a, (BV, IT)) and isinstance(b, (BV, IT)):
                return [(st, mkit(a.w, z3.If(c.e, zint(itval(a)), zint(itval(b)))))]
            return [(s, a if v else b) for s, v in self.branch(st, c.e)]
        if op == "extractvalue":
            v = self.opval(regs, x.ops[0])
            for i in x.x:
                if v is UNDEF:
                    break
                v = v.v[i]
            return [(st, v)]
        if op == "insertvalue":
            v = self.opval(regs, x.ops[0])
            e = self.opval(regs, x.ops[1])
            if len(x.x) != 1:
                raise Unsupported("nested insertvalue")
            lst = [UNDEF] * len(x.ty.fields) if v is UNDEF else list(v.v)
            lst[x.x[0]] = e
            return [(st, Agg(lst))]
        if op in ("call", "invoke"):
            return self.do_call(fn, st, regs, x, depth)
        raise Unsupported("instruction " + op)

    def do_gep(self, st, regs, x):
        base = self.opval(regs, x.ops[0])
        if base is UNDEF:
            self.fail(st, "initialised pointer", x)
            return []
        ty = x.x
        idx = x.ops[1:]
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        cur = [(st, base)]
        for n, op in enumerate(idx):
            v = self.opval(regs, op)
            if v is UNDEF:
                self.fail(st, "initialised index", x)
                return []
            if n == 0:
                sz = ty.size
            elif ty.kind == "struct":
                o = ty.offs[v.e]
                ty = ty.fields[v.e]
                if o:
                    cur = [z for s, p in cur for z in self.padd(s, p, BV(64, o), 1)]
                continue
            else:
                ty = ty.elem
                sz = ty.size
            if isinstance(v, BV) and v.e == 0 and isint(v.e):
                continue
            cur = [z for s, p in cur for z in self.padd(s, p, v, sz)]
        return cur

    def do_call(self, fn, st, regs, x, depth):
        tgt = self.opval(regs, x.x)
        if isinstance(tgt, FnP) and tgt.fn.name.startswith("llvm."):
            if tgt.fn.name.startswith(("llvm.dbg", "llvm.experimental.noalias")):
                return [(st, None)]
        args = [self.opval(regs, o) for o in x.ops]
        return self.call_value(st, tgt, args, x, depth)

    def call_value(self, st, tgt, args, x, depth):
        if tgt is UNDEF:
            self.fail(st, "initialised function pointer", x)
            return []
        if isinstance(tgt, Sym):
            return self.call_symbolic(st, tgt, args, x)
        if not isinstance(tgt, FnP):
            raise Unsupported("indirect call")
        f = tgt.fn
        if f.name.startswith("llvm."):
            return self.intrinsic(st, f.name, args, x)
        for rx, h, label in self.contracts:
            if rx.search(f.dem):
                r = h(self, st, f, args, x)
                if r is not None:
                    self.used_contracts.add(label)
                    return r
        for m in self.models:
            r = m(self, st, f, args, x)
            if r is not None:
                return r
        if f.decl:
            raise Unsupported("external function " + f.dem)
        r = self.summary(st, f, args, depth)
        if r is not None:
            return r
        return self.exec_fn(st, f, args, depth + 1)

    def summary(self, st, f, args, depth):
        """Loop-free functions of integers: executed once on arbitrary arguments; a call is an instance of the result"""
        self.mod.prep(f)
        if f.retty.kind != "int" or f.retty.width > 32 or len(args) != len(f.params):
            return None
        if not any(isinstance(a, BV) and not isint(a.e) for a in args) or any(not isinstance(a, (BV, Ptr)) for a in args):
            return None
        if f.name not in self.summaries:
            self.summaries[f.name] = self.summarise(f, args, depth)
        sm = self.summaries[f.name]
        if sm is None:
            return None
        syms, facts, val = sm
        sub = []
        for y, a in zip(syms, args):
            if y is None:
                continue
            if not isinstance(a, BV) or y.size() != (a.w if a.w > 1 else 1):
                return None
            sub.append((y, zbv(a)))
        st.pc += [z3.simplify(z3.substitute(x, *sub)) for x in facts]
        w = f.retty.width
        e = z3.substitute(val, *sub)
        return [(st, mkbool(e) if w == 1 else mkbv(w, e))]

    def summarise(self, f, args, depth):
        self.mod.prep(f)
        if len(f.blocks) < 8 or f.loops:
            return None
        n0 = len(self.obs)
        q = self.quiet
        nm = self.no_merge
        st = St()
        st.mem = {}
        syms, fa = [], []
        for a in args:
            if isinstance(a, BV):
                y = z3.BitVec(self.fresh("arg"), a.w)
                syms.append(y)
                fa.append(BV(a.w, y == 1 if a.w == 1 else y))
            else:
                o = self.new_obj("opaque", "opaque")
                syms.append(None)
                fa.append(Ptr(o.id, 0))
        try:
            self.quiet = 0
            self.no_merge = True
            outs = self.exec_fn(st, f, fa, depth + 1)
        except (Unsupported, NeedInvariant, NeedMerge, KeyError):
            del self.obs[n0:]
            return None
        finally:
            self.quiet = q
            self.no_merge = nm
        if any(not o.ok for o in self.obs[n0:]) or not outs or len(outs) > 400 or \
                any(s.mem or s.ghost or not isinstance(v, BV) for s, v in outs):
            del self.obs[n0:]
            return None
        if q:
            del self.obs[n0:]
        facts = [z3.Or(*[z3.And(*s.pc) if s.pc else z3.BoolVal(True) for s, v in outs])]
        # facts assumed on every path (contracts of callees)
        w = f.retty.width
        if w == 1:
            val = z3.Or(*[z3.And(*(s.pc + [zbool(v)])) for s, v in outs if not (isint(v.e) and v.e == 0)])
        else:
            val = zbv(outs[-1][1])
            for s, v in outs[:-1]:
                val = z3.If(z3.And(*s.pc), zbv(v), val)
        return syms, facts, z3.simplify(val)

    def call_symbolic(self, st, tgt, args, x):
        raise Unsupported("call of an unknown function")

    def intrinsic(self, st, name, args, x):
        if name.startswith("llvm.lifetime.start"):
            if isinstance(args[1], Ptr):
                o = self.objs[args[1].obj]
                if o.kind == "cells":
                    st.mem[o.id] = {}
            return [(st, None)]
        if name.startswith("llvm.lifetime.end"):
            if isinstance(args[1], Ptr):
                o = self.objs[args[1].obj]
                if o.kind == "cells" and o.id in st.mem:
                    st.mem[o.id] = {}
            return [(st, None)]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            return [(s, None) for s in self.memcpy(st, args[0], args[1], args[2], x)]
        if name.startswith("llvm.memset"):
            n, v, d = args[2], args[1], args[0]
            if not (isinstance(n, BV) and isint(n.e)):
                raise Unsupported("memset of symbolic size")
            o = self.objs[d.obj]
            if o.kind != "cells":
                raise Unsupported("memset of " + o.kind)
            if not self.bounds_ok(st, d, n.e, x, "write"):
                return []
            for i in range(n.e):
                self.cell_store(st, o.id, d.off + i, 1, v)
            return [(st, None)]
        if name.startswith("llvm.ctlz"):
            v = args[0]
            if v is UNDEF:
                self.fail(st, "initialised operand", x)
                return []
            zero_ub = isint(args[1].e) and args[1].e == 1
            if isinstance(v, IT):
                raise Unsupported("ctlz of a counter")
            w = v.w
            if isint(v.e):
                if v.e == 0 and zero_ub:
                    self.fail(st, "count leading zeros of a non-zero value", x)
                    return []
                return [(st, BV(w, w - v.e.bit_length()))]
            if zero_ub and not self.oblige(st, v.e != 0, "count leading zeros of a non-zero value", x):
                return []
            bits = []
            r = z3.BitVecVal(w, w)
            for i in range(w - 1, -1, -1):
                b = z3.simplify(z3.Extract(i, i, v.e))
                if z3.is_bv_value(b):
                    if b.as_long():
                        r = z3.BitVecVal(w - 1 - i, w)
                        break
                    continue
                bits.append((b, w - 1 - i))
            for b, n in reversed(bits):
                r = z3.If(b == 1, z3.BitVecVal(n, w), r)
            return [(st, mkbv(w, r))]
        if name.startswith("llvm.cttz"):
            raise Unsupported("cttz")
        if name.startswith("llvm.expect"):
            return [(st, args[0])]
        if name.startswith("llvm.is.constant"):
            return [(st, BV(1, 0))]
        if name.startswith("llvm.assume"):
            return [(st, None)]
        if name.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            a, b = args
            pred = {"llvm.umax": "ugt", "llvm.umin": "ult", "llvm.smax": "sgt", "llvm.smin": "slt"}[name[:9]]
            c = self.icmp(st, pred, a, b, x)
            if c is None:
                return []
            return [(s, a if v else b) for s, v in self.branch(st, c)]
        if name.startswith("llvm.abs"):
            a = args[0]
            c = self.icmp(st, "slt", a, BV(a.w, 0), x)
            out = []
            for s, v in self.branch(st, c):
                if v:
                    out += self.binop(s, "sub", BV(a.w, 0), a, x)
                else:
                    out.append((s, a))
            return out
        if name.startswith("llvm.trap"):
            self.fail(st, "trap is not reached", x)
            return []
        raise Unsupported("intrinsic " + name)


class _T:
    """ad hoc integer type"""
    def __init__(self, w):
        self.kind, self.width, self.size = "int", w, w // 8


PTRT = _T(64)
PTRT.kind = "ptr"


def joinval(x, y):
    return isinstance(x, BV) and isinstance(y, BV) and x.w == y.w and (x.w <= 8 or not (isint(x.e) and isint(y.e)))


def same_mem(a, b):
    if a is b:
        return True
    if a.keys() != b.keys():
        return False
    for k, v in a.items():
        w = b[k]
        if v is w:
            continue
        if isinstance(v, dict) and isinstance(w, dict):
            if v.keys() != w.keys():
                return False
            for o, (s, x) in v.items():
                t, y = w[o]
                if s != t or not same_val(x, y):
                    return False
            continue
        return False
    return True


def same_val(x, y):
    if x is y:
        return True
    if isinstance(x, BV) and isinstance(y, BV):
        return x.w == y.w and (x.e == y.e if isint(x.e) and isint(y.e) else
                               (not isint(x.e) and not isint(y.e) and x.e.eq(y.e)))
    if isinstance(x, IT) and isinstance(y, IT):
        return x.s == y.s and x.e.eq(y.e)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.obj == y.obj and same_off(x.off, y.off)
    if isinstance(x, FnP) and isinstance(y, FnP):
        return x.fn is y.fn
    return False


def same_off(a, b):
    if isinstance(a, tuple):
        return a[1] == b[1] and same_off(a[0], b[0])
    if isint(a) or isint(b):
        return isint(a) and isint(b) and a == b
    return a.eq(b)
