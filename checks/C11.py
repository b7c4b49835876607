"""Counters and key-value store of an instance."""
from vt import *
def check():
    C = []; deep = TIER != "quick"
    for l in ("111", "112", "212", "122", "222") + (("2222", "1221") if deep else ()): C.append(Cfg("counter-" + l, "map.c", dict(mode=0, lens=l, n=len(l)), weight=10, time=3000 if deep else 250, covers=("same",)))
    for pre, ops in ((0, 3), (2, 3), (3, 3), (1, 3)) + (((0, 5), (3, 4)) if deep else ((0, 4),)): C.append(Cfg("store-%d-%d" % (pre, ops), "map.c", dict(mode=1, pre=pre, ops=ops), weight=15, time=3000 if deep else 250, covers=("deleted",)))
    for x in (7, 31, 300) + ((15, 63) if deep else ()):
        C.append(Cfg("counter-long-%d" % x, "map.c", dict(mode=0, lens="11", n=2, same=x), weight=8, time=250, covers=("same",)))
        C.append(Cfg("store-long-%d" % x, "map.c", dict(mode=1, pre=2, ops=2, same=x), weight=8, time=250, covers=("deleted",)))
    C.append(Cfg("counter-many", "map.c", dict(mode=0, lens="11", n=2, fill=40), weight=8, time=250, covers=("same",))); C.append(Cfg("store-many", "map.c", dict(mode=1, pre=1, ops=2, fill=40), weight=8, time=250, covers=("deleted",)))
    return Check("C11", C, bounds="three counter names of 1-2 printable characters; every sequence of up to 3-4 operations on three keys (two of one arbitrary byte, one longer) after 0 to 3 insertions; the same with names of up to 300 characters that are alike up to the last one or two, and beside 40 others", assumptions=["malloc does not fail"])
