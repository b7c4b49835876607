"""Display width: counting, trimming and padding."""
from vt import *
import uni
POOL = [0x41, 0x3042, 0x411, 0xa0, 0xa1, 0xa000, 0xa0a0, 0x301, 0xd, 0x20, 0xff21, 0x10fffd, 0x32]
def pre(b):
    open(b.dir + "/width_tab.h", "w").write(uni.pages("wclass", uni.width()) + "static const unsigned POOL[]={%s};\n#define NPOOL %d\n" % (",".join(map(str, POOL)), len(POOL)))
def check():
    C = []; deep = TIER != "quick"; D = ('TABLE="width_tab.h"',)
    def c(nm, conv, mode, pat, w=10, covers=(), **k): C.append(Cfg("%s-%s" % (nm, pat), "width.c", dict(conv="pass:%s:pass" % conv, mode=mode, pat=pat, **k), D, weight=w, time=3000 if deep else 250, covers=covers))
    for p in ("s", "sx", "xs", "sp", "ppp"): c("width", "width", 0, p)
    for n in (0, 1, 2, 3, 4, 5): c("trim%d" % n, "trim-width#%d" % n, 1, "ppp", width=n, covers=("cut",))
    for n in (1, 2): c("trim%d" % n, "trim-width#%d" % n, 1, "s", width=n); c("trimw%d" % n, "trim-width#%d&ambi-as-wide" % n, 1, "s", width=n, ambi=2)
    for n in (2, 3, 4): c("trimw%d" % n, "trim-width#%d&ambiguous-as-wide" % n, 1, "ppp", width=n, ambi=2)
    c("trim4", "trim-width#4", 1, "pppp", width=4); c("trim2", "trim-width#2", 1, "spp", 30, width=2) if deep else c("trim2", "trim-width#2", 1, "sp", 20, width=2); c("trim2", "trim-width#2", 1, "pxp", width=2); c("trim12", "trim-width#12", 1, "ppp", width=12)
    for p in ("s", "ps", "sp", "sx", "xs", "ppp", "pppp", "pxp"): c("pad", "ambiguous-pad", 2, p, covers=("padded",)); c("unpad", "ambiguous-unpad", 3, p, covers=("unpadded",) if "pp" in p else ()); c("roundtrip", "ambiguous-pad:ambiguous-unpad", 4, p)
    for v in (0, 1): c("pad-ctl%d" % v, "ambiguous-pad", 2, "sp", ctl=v); c("unpad-ctl%d" % v, "ambiguous-unpad", 3, "pp", ctl=v); c("pad-list-ctl%d" % v, "sub,ambiguous-pad", 2, "pp", ctl=v, sub=1, covers=("substituted",))
    C.append(Cfg("trimw300", "long.c", dict(conv="utf-8:trim-width#300:utf-8", unit="61", reps=400, lo=32, hi=126, first=300), weight=8, steps=500000000, covers=("output",)))
    return Check("C18", C, prebuild=pre, bounds="every scalar value alone and before or after %d selected characters and items of other types; every string of 3 (4) selected characters; trim widths 0 to 5 and 12, and 300 in texts of ASCII characters, both ambiguous widths; padding switched on and off" % len(POOL), assumptions=["East Asian Width and assignment: Python unicodedata 15 without code points added after Unicode 13", "malloc does not fail"])
