"""Models of the data the code works on: well-formed UTF-8 text, arrays of
UTF-32 codepoints, and the spec functions over them."""
import z3
from symex import iadd, zint, isint, BV, IT, Ptr

BVS = z3.BitVecSort(32)
ARR = z3.ArraySort(z3.IntSort(), BVS)


def scalar(c):
    """c is a Unicode scalar value"""
    return z3.And(z3.ULE(c, 0x10FFFF), z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF)))


def enc_len(c):
    return z3.If(z3.ULT(c, 0x80), 1, z3.If(z3.ULT(c, 0x800), 2, z3.If(z3.ULT(c, 0x10000), 3, 4)))


def enc_octet(c, k, l):
    """Octet k of the l-octet UTF-8 form of c (RFC 3629)"""
    B = z3.BitVecVal
    E = z3.Extract
    if l == 1:
        return z3.Concat(B(0, 1), E(6, 0, c))
    if k == 0:
        if l == 2:
            return z3.Concat(B(0b110, 3), E(10, 6, c))
        if l == 3:
            return z3.Concat(B(0b1110, 4), E(15, 12, c))
        return z3.Concat(B(0b11110, 5), E(20, 18, c))
    sh = 6 * (l - 1 - k)
    return z3.Concat(B(0b10, 2), E(sh + 5, sh, c))


class Text:
    """n codepoints cp(0..n-1), all scalar values; in an UTF-8 text codepoint i
    occupies octets OFF(i) .. OFF(i+1)-1"""
    def __init__(self, name, n=None, fixed=None):
        self.name = name
        self.T = z3.Const(name, ARR)
        self.n = z3.Int(name + ".n") if n is None else n
        self.OFF = z3.Function(name + ".off", z3.IntSort(), z3.IntSort())
        self.keep = []
        self.fixed = fixed
        self.hooks = []

    def cp(self, i):
        if self.fixed is not None and isint(i) and 0 <= i < len(self.fixed):
            return self.fixed[i]
        return z3.Select(self.T, zint(i))

    def known_idx(self, ex, st, i):
        return [0, self.n]

    def off_facts(self, i, j):
        i, j = zint(i), zint(j)
        return [z3.Implies(i < j, self.OFF(j) >= self.OFF(i) + (j - i)),
                z3.Implies(j < i, self.OFF(i) >= self.OFF(j) + (i - j)),
                z3.Implies(i == j, self.OFF(i) == self.OFF(j))]

    def step_facts(self, i, j):
        """OFF(i+1) from OFF(i), and its order with OFF(j)"""
        n = iadd(i, 1)
        return [self.OFF(zint(n)) == self.OFF(zint(i)) + enc_len(self.cp(i))] + self.off_facts(n, j)

    def facts(self):
        return [zint(self.n) >= 0, self.OFF(0) == 0, z3.Implies(zint(self.n) > 0, self.OFF(zint(self.n)) >= zint(self.n)),
                z3.Implies(zint(self.n) == 0, self.OFF(zint(self.n)) == 0)]

    def octet(self, i, k, l):
        return enc_octet(self.cp(i), k, l)

    def assume_cp(self, ex, st, i):
        key = ("cp", self.name)
        seen = st.ghost.get(key, frozenset())
        t = zint(i)
        self.keep.append(t)
        if t.get_id() in seen:
            return
        st.ghost[key] = seen | {t.get_id()}
        st.pc.append(scalar(self.cp(i)))
        for h in self.hooks:
            h(ex, st, i)


def text8_obj(ex, st, text, name=None):
    o = ex.new_obj("u8text", name or text.name)
    o.text = text
    st.mem[o.id] = ("text",)
    return o


def text32_obj(ex, st, text, name=None):
    """read-only view of a text stored as UTF-32"""
    o = ex.new_obj("arr", name or text.name)
    o.text = text
    o.esz = 4
    o.n = text.n
    o.ro = True
    st.mem[o.id] = (text.T, text.n)
    return o
