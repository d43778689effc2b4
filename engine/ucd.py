"""The Unicode 9.0 data, as specification of the property lookups."""
import gzip, os, re
import build

HERE = os.path.join(build.VERIF, "ucd")
PROPS = os.path.join(build.REPO, "src", "u5e", "props")

GCB = ["OTHER", "CR", "LF", "CONTROL", "EXTEND", "ZWJ", "REGIONAL_INDICATOR", "PREPEND", "SPACINGMARK", "L", "V", "T", "LV", "LVT",
       "E_BASE", "E_MODIFIER", "GLUE_AFTER_ZWJ", "E_BASE_GAZ"]


def text(name, src):
    """src: 'snapshot' or 'repo'"""
    if src == "repo":
        with open(os.path.join(PROPS, name), encoding="utf-8", errors="replace") as f:
            return f.read()
    with gzip.open(os.path.join(HERE, name + ".gz"), "rt", encoding="utf-8") as f:
        return f.read()


class UCD:
    def __init__(self, src="snapshot"):
        self.ccc = {}
        self.cmap = {}     # codepoint -> canonical mapping (one level)
        self.kmap = {}     # codepoint -> (tag, mapping)
        for l in text("UnicodeData.txt", src).splitlines():
            f = l.split(";")
            if len(f) < 6:
                continue
            c = int(f[0], 16)
            k = int(f[3] or 0)
            if k:
                self.ccc[c] = k
            if f[5]:
                m = re.match(r"<(\w+)> (.*)", f[5])
                if m:
                    self.kmap[c] = (m.group(1), [int(x, 16) for x in m.group(2).split()])
                else:
                    self.cmap[c] = [int(x, 16) for x in f[5].split()]
        self.excl = set()
        for l in text("CompositionExclusions.txt", src).splitlines():
            l = l.split("#")[0].strip()
            if l:
                self.excl.add(int(l.split()[0], 16))
        self.gcb = []      # (lo, hi, name) sorted
        for l in text("GraphemeBreakProperty.txt", src).splitlines():
            l = l.split("#")[0].strip()
            if not l:
                continue
            r, v = [x.strip() for x in l.split(";")]
            a, _, b = r.partition("..")
            self.gcb.append((int(a, 16), int(b or a, 16), v.upper()))
        self.gcb.sort()

    def hangul(self, c):
        s = c - 0xAC00
        if not 0 <= s < 11172:
            return None
        r = [0x1100 + s // 588, 0x1161 + s % 588 // 28]
        return r + ([0x11A7 + s % 28] if s % 28 else [])

    def _rec(self, c, step, memo):
        if c in memo:
            return memo[c]
        m = step(c)
        r = [c] if m is None else [y for x in m for y in self._rec(x, step, memo)]
        memo[c] = r
        return r

    def canonical(self, hangul=True):
        """{codepoint: full canonical decomposition}"""
        memo = {}
        keys = list(self.cmap) + (list(range(0xAC00, 0xAC00 + 11172)) if hangul else [])

        def step(c):
            if c in self.cmap:
                return self.cmap[c]
            return self.hangul(c) if hangul else None
        return {c: self._rec(c, step, memo) for c in keys}

    def compat(self, hangul=True, tags=None):
        """{codepoint: full compatibility decomposition}; tags limits the formatting tags that count"""
        memo = {}
        keys = set(self.cmap) | {c for c, (t, _) in self.kmap.items() if tags is None or t in tags}
        if hangul:
            keys |= set(range(0xAC00, 0xAC00 + 11172))

        def step(c):
            if c in self.cmap:
                return self.cmap[c]
            if c in self.kmap and (tags is None or self.kmap[c][0] in tags):
                return self.kmap[c][1]
            return self.hangul(c) if hangul else None
        return {c: self._rec(c, step, memo) for c in keys}

    def pairs(self):
        """{(a, b): primary composite} without Hangul"""
        r = {}
        for c, m in self.cmap.items():
            if len(m) == 2 and c not in self.excl and not self.ccc.get(c) and not self.ccc.get(m[0]):
                r[tuple(m)] = c
        return r


def boundary(va, vb):
    """Grapheme boundary between classes va, vb: GB3 to GB999 of UAX #29 (Unicode 9.0) on the pair alone"""
    ctl = ("CR", "LF", "CONTROL")
    if va == "CR" and vb == "LF":
        return False                                  # GB3
    if va in ctl or vb in ctl:
        return True                                   # GB4, GB5
    if va == "L" and vb in ("L", "V", "LV", "LVT"):
        return False                                  # GB6
    if va in ("LV", "V") and vb in ("V", "T"):
        return False                                  # GB7
    if va in ("LVT", "T") and vb == "T":
        return False                                  # GB8
    if vb in ("EXTEND", "ZWJ", "SPACINGMARK"):
        return False                                  # GB9, GB9a
    if va == "PREPEND":
        return False                                  # GB9b
    if va in ("E_BASE", "E_BASE_GAZ", "EXTEND") and vb == "E_MODIFIER":
        return False                                  # GB10
    if va == "ZWJ" and vb in ("GLUE_AFTER_ZWJ", "E_BASE_GAZ"):
        return False                                  # GB11
    if va == "REGIONAL_INDICATOR" and vb == "REGIONAL_INDICATOR":
        return False                                  # GB12, GB13
    return True                                       # GB999
