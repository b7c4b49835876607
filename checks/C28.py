"""Case, width and newline mappings against Unicode data."""
from vt import *
import tabgen, uni, unicodedata as U
NLS = [0x0d, 0x0a, 0x41, 0x3c, 0x10d, 0xd0d]
SPECIAL = {"upper": {c: chr(c).title() for r in ((0x1f80, 0x1faf), (0x1fb3, 0x1fb3), (0x1fc3, 0x1fc3), (0x1ff3, 0x1ff3)) for c in range(r[0], r[1] + 1) if chr(c).title() != chr(c)}, "lower": {0x130: "i"}}
def tries():
    R = {}
    for n, f in (("upper", str.upper), ("lower", str.lower), ("casefold", str.casefold)):
        t = tabgen.Trie()
        for c in range(0x110000):
            if 0xd800 <= c < 0xe000: continue
            d = SPECIAL.get(n, {}).get(c) or f(chr(c))
            if c in uni.POST13: t.add(tabgen.elem(c), [tabgen.SKIP])
            elif n == "upper" and c in SPECIAL["upper"]: t.add(tabgen.elem(c), [ord(d)])
            elif d != chr(c): t.add(tabgen.elem(c), [ord(x) for x in d])
        R[n] = t
    full, half = tabgen.Trie(), tabgen.Trie()
    for c in range(0x10000):
        d = U.decomposition(chr(c)).split()
        if not d or d[0] not in ("<wide>", "<narrow>"): continue
        w = int(d[1], 16)
        if c in (0xff9e, 0xff9f): w = 0x309b + c - 0xff9e  # the spacing sound marks
        a, b = (c, w) if d[0] == "<wide>" else (w, c)     # a full width, b half width
        full.add(tabgen.elem(b), [a]); half.add(tabgen.elem(a), [b])
    R["full"], R["half"] = full, half
    for n, v in (("unix", [10]), ("mac", [13]), ("win", [13, 10]), ("nl2br", [ord(x) for x in "<br />"])):
        t = tabgen.Trie()
        for k in ((13,), (10,), (13, 10)): t.add(sum([((tabgen.SEP,) if i else ()) + tabgen.elem(x) for i, x in enumerate(k)], ()), v)
        R[n] = t
    return R
def pre(b):
    for n, t in tries().items(): tabgen.header(b.dir + "/c28_%s.h" % n, [t], skip=tabgen.SKIP, pool=NLS)
def check():
    C = []; deep = TIER != "quick"
    def c(nm, conv, tab, **k): C.append(Cfg(nm, "tabto.c", dict(conv="utf-32be:%s:utf-32be" % conv, inter=1, nul=1, **k), ('TABLE="c28_%s.h"' % tab,), weight=10 * k.get("k", 1), covers=("mapped",), time=3000 if deep else 250))
    for n in ("upper", "lower", "casefold", "full", "half"): c(n, n, n, k=1, pool=1); c(n + "2", n, n, k=2, lo=1, pool=1)
    for n in ("unix", "mac", "win", "nl2br"): c(n, n, n, k=1, pool=1); c(n + "2", n, n, k=2, pool=1); c(n + "4", n, n, k=4, pool=0)
    c("unix5", "unix", "unix", k=4, pool=0)
    return Check("C28", C, prebuild=pre, bounds="every scalar value alone and before every character of a small set; newline conversions: every scalar value followed by any of 6 characters and every string of 4 of them", assumptions=["case mappings: Python str.upper/lower/casefold (Unicode 15) without code points added after Unicode 13; U+0130 lower-cases to i and the Greek letters with ypogegrammeni upper-case to their title-case form (simple mappings), as in the repository", "malloc does not fail"])
