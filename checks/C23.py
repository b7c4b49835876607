"""The textual notation of internal characters (BSDCONV codec)."""
from vt import *
def check():
    deep = TIER != "quick"; C = []; E = "pass:insert#after=002c:bsdconv-keyword,bsdconv"; D = "bsdconv,bsdconv-keyword:pass"
    C.append(Cfg("rt1", "hexrt.c", dict(k=1, maxlen=5, enc=E, dec=D), weight=5, time=200));
    C.append(Cfg("rt2", "hexrt.c", dict(k=2, maxlen=4 if deep else 3, enc=E, dec=D), jobs=1, weight=15, time=3000 if deep else 200))
    C.append(Cfg("rt3", "hexrt.c", dict(k=3, maxlen=3 if deep else 2, enc=E, dec=D), jobs=4, weight=20, time=3000 if deep else 200))
    for n in (1, 2, 3, 4, 5) + ((6,) if deep else ()): C.append(Cfg("read-any%d" % n, "textdec.c", dict(n=n, conv="bsdconv,byte:pass", mode=2), jobs=2 if n > 4 else 1, weight=n * 3, time=3000 if deep else 200))
    C.append(Cfg("read-alpha", "textdec.c", dict(n=8, conv="bsdconv,byte:pass", mode=2, alpha="aF, "), jobs=2, weight=20, time=200))
    C.append(Cfg("read-long", "textdec.c", dict(n=22, conv="bsdconv,byte:pass", mode=2, pre="0123456789abCD", alpha="9,"), jobs=1, weight=10, time=200))
    return Check("C23", C, bounds="every list of up to 3 items (1 item up to 5 bytes, 2 up to 3, 3 up to 2) with a non-zero type byte; reading: every string of up to 5 bytes, strings of 8 characters over a hexadecimal alphabet with separators, 22 characters with a 14 digit prefix", assumptions=["runs with an odd number of digits have no defined meaning and are not judged", "libc memory/string functions and sprintf are modelled by the engine", "malloc does not fail"])
