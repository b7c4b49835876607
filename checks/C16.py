"""Unicode normalization forms."""
from vt import *
import tabgen, uni
# marks of every kind of combining class, jamo, spacing marks that compose, bases that compose, a plain letter
POOL = [0x334, 0x327, 0x328, 0x31b, 0x323, 0x301, 0x308, 0x304, 0x345, 0x9be, 0x1161, 0x11a8, 0x1100, 0x61, 0x6f, 0x627, 0x654, 0x3099, 0xac00, 0x1e4d]
SMALL = [0x323, 0x301, 0x304, 0x61, 0x6f, 0x1e4d, 0x31b]
def pre(b):
    ccc, comps, skips = uni.ccc(), uni.comps(), uni.skips()
    for n, cp in (("d", False), ("k", True)):
        d = uni.decomp(cp)
        tabgen.header(b.dir + "/nf_%s.h" % n, [d, ccc, comps, skips], pool=POOL)
        tabgen.header(b.dir + "/nf_%s_small.h" % n, [d, ccc, comps, skips], pool=SMALL)
def check():
    C = []; deep = TIER != "quick"
    for f, h, compose in (("nfd", "d", 0), ("nfkd", "k", 0), ("nfc", "d", 1), ("nfkc", "k", 1)):
        D = ('TABLE="nf_%s.h"' % h,); D2 = ('TABLE="nf_%s_small.h"' % h,)
        def c(pat, d=D, w=10, **k): C.append(Cfg("%s-%s%s" % (f, pat, "" if d is D else "-small"), "nf.c", dict(conv="pass:%s:pass" % f, pat=pat, compose=compose, **k), d, weight=w, time=3000 if deep else 250, jobs=2 if w > 15 else 1))
        c("s"); c("sp", w=30); c("ps", w=30); c("sx"); c("xs"); c("pxp"); c("ppp", w=25); c("pppp", D2, w=20)
        if deep: c("psp", D2, w=50); c("spp", D2, w=50)
    for f, u, wh, wu, wr, wu2, wr2 in (("nfc", "cc81", "c3a9", "cc81", 299, "", 0), ("nfd", "cc81", "65", "cc81", 300, "", 0), ("nfd", "cc81cca3", "65", "cca3", 300, "cc81", 300), ("nfc", "cc81cca3", "e1bab9", "cca3", 299, "cc81", 300), ("nfkd", "efac83", "65", "666669", 300, "", 0)):
        C.append(Cfg("long-%s-%s" % (f, u), "long.c", dict(conv="utf-8:%s:utf-8" % f, unit=u, reps=300, pos=0, lo=0x65, hi=0x65, whead=wh, wunit=wu, wreps=wr, wunit2=wu2, wreps2=wr2), weight=10, time=300, steps=2000000000, covers=("output",)))
    return Check("C16", C, prebuild=pre, bounds="every scalar value alone, before and after each of %d selected characters (marks of 8 combining classes, jamo, composing bases) and before or after an item of another type; every string of 3 selected characters, of 4 over %d of them; a letter with 300 or 600 marks, cut at five positions" % (len(POOL), len(SMALL)), assumptions=["character data: Python unicodedata 15 without code points added after Unicode 13, on which the tables of the repository are based", "malloc does not fail"])
