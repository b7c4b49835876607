"""ESCAPE: reading and writing of percent and backslash escapes."""
from vt import *
def check():
    deep = TIER != "quick"; C = []
    def dec(nm, n, conv="escape,byte:pass", **k): C.append(Cfg(nm, "textdec.c", dict(n=n, conv=conv, mode=0, **k), jobs=2 if n > 5 else 1, weight=n, time=3000 if deep else 200))
    for n in (1, 2, 3, 4, 5) + ((6, 7) if deep else ()): dec("dec-any-%d" % n, n)
    for n in (2, 3, 4): dec("dec-strict-%d" % n, n, "escape:pass", fallback=0)
    dec("dec-strict-u", 7, "escape:pass", pre="%u", fallback=0)
    for i, p in enumerate(("%u", "\\u")): dec("dec-u%d" % i, 8 if deep else 7, pre=p)
    dec("dec-u0", 7, pre="\\u00"); dec("dec-tail", 7, pre="%u12\\", alpha="4u%x\\07"); dec("dec-oct", 6, pre="\\3"); dec("dec-x", 6, pre="\\x"); dec("dec-pct", 6, pre="%%"); dec("dec-cut", 6, pre="%4%u")
    def enc(nm, conv, **k): C.append(Cfg(nm, "escenc.c", dict(conv=conv, **k), time=200, covers=("read back",) if k.get("rt") else ()))
    enc("enc-default", "pass:escape", prefix="2575", rt="escape:pass", min=256, max=65535)
    enc("enc-url", "pass:url", prefix="2575", rt="escape:pass", min=256, max=65535)
    enc("enc-java", "pass:ascii-escaped-unicode", prefix="5c75", rt="escape:pass", min=256, max=65535)
    enc("enc-url-byte", "pass:url", prefix="25", type=3, rt="escape:pass")
    enc("enc-oct", "pass:escape#for=byte&mode=oct&prefix=5c", prefix="5c", mode=8, type=3, rt="escape:pass")
    enc("enc-x", "pass:escape#for=3&mode=hex&prefix=5c78", prefix="5c78", type=3, rt="escape:pass")
    enc("enc-oct-suffix", "pass:escape#for=byte&mode=8&prefix=7b&suffix=207d", prefix="7b", suffix="207d", mode=8, type=3)
    enc("enc-dec", "pass:escape#for=03&mode=dec&prefix=7b", prefix="7b", mode=10, type=3)
    enc("enc-udec", "pass:escape#for=unicode&mode=10&prefix=23&suffix=3b", prefix="23", suffix="3b", mode=10)
    enc("enc-uni-suffix", "pass:escape#prefix=5c787b&suffix=7d", prefix="5c787b", suffix="7d")
    enc("enc-not-byte", "pass:escape#for=unicode", type=3, ok=0); enc("enc-not-unicode", "pass:escape#for=byte", ok=0); enc("enc-uni-oct", "pass:escape#mode=8", ok=0)
    return Check("C13", C, bounds="reading: every string of up to 5 bytes, every string of 6 to 7 bytes starting with %u, \\u, \\3, \\x, %%, %4%u; writing: every scalar value and every byte in each mode", assumptions=["libc memory/string functions and sprintf are modelled by the engine", "malloc does not fail"])
