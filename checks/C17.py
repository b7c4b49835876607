"""Filters and scorers."""
from vt import *
import blocks
def pre(b):
    def wr(fn, tabs, types):
        s = "typedef struct { const char*name; int type; int n; const unsigned (*r)[3]; } ft_t;\n"
        for n, r in tabs.items(): s += "static const unsigned r_%s[][3]={%s};\n" % (n, ",".join("{%d,%d,%d}" % (x[0], x[1], x[2] if len(x) > 2 else 1) for x in r))
        e = ['{"%s",0,%d,r_%s}' % (n, len(r), n) for n, r in tabs.items()] + ['{"%s",%d,0,0}' % (n, t) for n, t in types.items()]
        open(b.dir + "/" + fn, "w").write(s + "static const ft_t FT[]={%s};\n#define NFT %d\n" % (",".join(e), len(e)))
    wr("filters.h", blocks.FILTERS, blocks.TYPES); wr("scorers.h", blocks.SCORERS, {})
def check():
    C = []; n = len(blocks.FILTERS) + len(blocks.TYPES); F = ('TABLE="filters.h"',); S = ('TABLE="scorers.h"',)
    for i in range(0, n, 8):
        for p in ("u", "x"): C.append(Cfg("filter%d-%s" % (i, p), "filter.c", dict(pat=p, lo=i, hi=min(n, i + 8) - 1), F, weight=5, time=250, covers=("out", "in") if (p == "u") == (i + 8 < n) else ("out",)))
    C.append(Cfg("score-u", "filter.c", dict(pat="u", scorer=1), S, covers=("in", "out"))); C.append(Cfg("score-x", "filter.c", dict(pat="x", scorer=1), S)); C.append(Cfg("score-uu", "filter.c", dict(pat="uu", scorer=1), S, weight=20)); C.append(Cfg("score-uxu", "filter.c", dict(pat="uxu", scorer=1, lo=1, hi=1), S, weight=20))
    k = list(blocks.FILTERS)
    for f in ("CJK", "LATIN", "ROMAN", "PRINT", "PUA"): C.append(Cfg("two-" + f, "filter.c", dict(pat="uu", lo=k.index(f), hi=k.index(f)), F, weight=15, covers=("in",))); C.append(Cfg("mix-" + f, "filter.c", dict(pat="uxu", lo=k.index(f), hi=k.index(f)), F, weight=15) if f in ("PRINT", "ROMAN") else Cfg("mix-" + f, "filter.c", dict(pat="xu", lo=k.index(f), hi=k.index(f)), F))
    return Check("C17", C, prebuild=pre, bounds="every filter and scorer: every Unicode item 0..U+110000 and every item of up to 3 bytes of another type; five filters and the scorers also over pairs", assumptions=["the ranges selected by the filters are those of Unicode 13 Blocks.txt, listed in lib/blocks.py", "malloc does not fail"])
