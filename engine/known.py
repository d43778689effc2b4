"""Known findings (KNOWN_FINDINGS.txt): inputs on which the unchanged code is known to differ from a property.
Lines:
  finding: property=<id> id=<name> :: <what fails>
  values: <name> <hex ranges>           inputs the finding is limited to
  fixed: property=<id> <commit> <what failed>
"""
import os, re
import build

FILE = os.path.join(build.VERIF, "KNOWN_FINDINGS.txt")
_f = None


def load():
    global _f
    if _f is None:
        _f = {}
        vals = {}
        if os.path.exists(FILE):
            for l in open(FILE, encoding="utf-8"):
                l = l.strip()
                m = re.match(r"finding: property=(\S+) id=(\S+) :: (.*)", l)
                if m:
                    _f.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
                m = re.match(r"values: (\S+) (.*)", l)
                if m:
                    s = vals.setdefault(m.group(1), [])
                    for r in m.group(2).split():
                        a, _, b = r.partition("-")
                        s.append((int(a, 16), int(b or a, 16)))
        _f["values"] = {k: sorted(v) for k, v in vals.items()}
    return _f


def finding(prop, name):
    f = load()
    return "%s %s" % (name, f[prop][name]) if name in f.get(prop, {}) else None


def inside(name, l, h):
    """[l, h] lies in the values of the finding"""
    x = l
    for a, b in load()["values"].get(name, []):
        if a <= x <= b:
            if h <= b:
                return True
            x = b + 1
    return False


_tag = None


def tagged():
    """what the recorded finding of C16 returns: only <compat> mappings (and canonical ones) are followed"""
    global _tag
    if _tag is None:
        import ucd
        _tag = ucd.UCD().compat(hangul=False, tags={"compat"})
    return _tag


def accept(prop, l, h, value, spec):
    """The difference value / spec on [l, h] is a recorded finding: list of findings, else None"""
    if prop in ("C15", "C16") and value is None:
        f = finding(prop, "hangul-not-decomposed")
        if f and 0xAC00 <= l and h <= 0xD7A3:
            return [f]
    if prop == "C16":
        f = finding(prop, "compat-tags-ignored")
        if f and inside("compat-tags-ignored", l, h):
            t = tagged()
            if h - l < 10000 and all((tuple(t[c]) if c in t else None) == value for c in range(l, h + 1)):
                return [f]
    return None


def formula(prop, c, value):
    import z3
    S = lambda v: z3.BitVecVal(v, 32)
    fs = []
    if prop in ("C15", "C16") and value is None and finding(prop, "hangul-not-decomposed"):
        fs.append(z3.And(c >= S(0xAC00), c <= S(0xD7A3)))
    if prop == "C16" and finding(prop, "compat-tags-ignored"):
        t = tagged()
        for a, b in load()["values"].get("compat-tags-ignored", []):
            for x in range(a, b + 1):
                if (tuple(t[x]) if x in t else None) == value:
                    fs.append(c == S(x))
    return z3.Or(*fs) if fs else None


def hangul_compose(a, b):
    if 0x1100 <= a <= 0x1112 and 0x1161 <= b <= 0x1175:
        return 0xAC00 + (a - 0x1100) * 588 + (b - 0x1161) * 28
    if 0xAC00 <= a <= 0xD7A3 and (a - 0xAC00) % 28 == 0 and 0x11A8 <= b <= 0x11C2:
        return a + b - 0x11A7
    return None


def hangul_pairs(ra, rb):
    f = finding("C17", "hangul-not-composed")
    if f and (ra[0] <= 0x1112 and ra[1] >= 0x1100 and rb[0] <= 0x1175 and rb[1] >= 0x1161):
        return [f]
    return []


def hangul_ok(ra, rb, val):
    return ra[0] == ra[1] and rb[0] == rb[1] and hangul_compose(ra[0], rb[0]) == val
