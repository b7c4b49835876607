"""Numeric character references."""
from vt import *
def check():
    deep = TIER != "quick"; C = []; K = dict(conv="ascii-numeric-html-entity,byte:pass", mode=1)
    def dec(nm, n, jobs=1, **k): C.append(Cfg("dec-" + nm, "textdec.c", dict(K, n=n, **k), jobs=jobs, weight=n, time=3000 if deep else 250))
    for n in (1, 2, 3, 4, 5): dec("any%d" % n, n)
    dec("ref", 7 if deep else 6, 2, pre="&#"); dec("hex", 6, 1, pre="&#x"); dec("hexbig", 10, 2, pre="&#x10ff"); dec("over", 9, 1, pre="&#x110"); dec("zero", 9, 1, pre="&#x000"); dec("decbig", 10, 2, pre="&#1114", alpha="019;&x"); dec("cut", 8, 1, pre="&#6&#x"); dec("wrap", 14, 1, pre="&#x1000000", alpha="041;"); dec("wrapdec", 14, 1, pre="&#42949673", alpha="026;")
    C.append(Cfg("strict", "textdec.c", dict(n=5, conv="ascii-numeric-html-entity:pass", mode=1, fallback=0), weight=5, time=200)); C.append(Cfg("strict-ref", "textdec.c", dict(n=6, conv="ascii-numeric-html-entity:pass", mode=1, fallback=0, pre="&#"), weight=5, time=200))
    for nm, c, k in (("hex", "pass:ascii-hex-numeric-html-entity", dict(prefix="262378", suffix="3b", rt="ascii-numeric-html-entity:pass")), ("dec", "pass:ascii-dec-numeric-html-entity", dict(prefix="2623", suffix="3b", mode=10)), ("decrt", "pass:ascii-dec-numeric-html-entity", dict(prefix="2623", suffix="3b", mode=10, maxlen=2 if deep else 1, rt="ascii-numeric-html-entity:pass"))):
        C.append(Cfg("enc-" + nm, "escenc.c", dict(conv=c, **k), weight=20, time=250, covers=("read back",) if "rt" in k else ()))
    return Check("C14", C, bounds="reading: every string of up to 5 bytes, every string of 6 to 10 bytes starting with &#, &#x, &#x10ff, &#x110, &#x000, &#6&#x, digit strings around U+10FFFF and 2^32; writing: every scalar value", assumptions=["libc memory/string functions and sprintf are modelled by the engine", "malloc does not fail"])
