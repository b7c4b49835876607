"""Output modes and chained instances."""
from vt import *
M = ["utf-8:utf-8", "utf-8:utf-16be", "utf-16be:utf-8", "escape,byte:bsdconv", "byte:byte", "pass:pass", "utf-8:raw", "ascii-named-html-entity,byte:byte"]
ITEM = {"byte:byte": 1, "pass:pass": 3, "escape,byte:bsdconv": 12, "utf-8:ascii-html-info": 60, "utf-8:escape": 8}
PRE = [(c, p, 1) for c, p in (("utf-8:nfc:utf-8", "61cc"), ("utf-8:nfd:utf-16be", "61c3"), ("utf-8:utf-8", "61f09f98"), ("utf-8:utf-8", "e4b8"), ("jis:utf-8", "1b2442"), ("utf-8:width:utf-8", "e6b8"), ("utf-8:whitespace-derail:whitespace-rerail:utf-8", "0a61"), ("utf-8:jis", "e4b8"), ("utf-8:big5", "41e4b8"), ("bsdconv:raw", "303132"), ("ascii:upper:utf-16le", "616263"), ("gb18030:utf-16be", "41813081"), ("cp936:utf-8", "4181"), ("utf-8:ascii,3f", "41e4"), ("utf-8:ascii-html-info", "d1"), ("utf-8:escape", "e4b8"), ("utf-8:insert#after=0141.0142:utf-8", "61"))]
PASS = [("utf-8:utf-16be", "utf-16be:utf-8", "", 3), ("utf-8:utf-16le", "utf-16le:utf-8", "61", 3), ("utf-8:utf-8", "utf-8:utf-16be", "e4b8", 2), ("utf-8:utf-8", "utf-8:nfc:utf-16be", "61cc", 2), ("utf-8:big5,3f", "big5:utf-16be", "e4b8", 2), ("byte:byte", "utf-8:utf-16be", "f0", 3), ("byte:byte", "utf-8:utf-16be", "e4", 3), ("byte:byte", "gb18030:utf-16be", "8130", 2), ("byte:byte", "cp936,3f:utf-8", "", 3), ("ansi-control,byte:byte", "ansi-control,utf-8:utf-8", "1b5b", 2), ("escape,byte:byte", "utf-8:utf-8", "25", 2), ("utf-8:escape", "escape:utf-8", "", 2), ("pass:pass", "pass:pass", "", 3), ("utf-8:null", "utf-8:utf-8", "", 2), ("utf-8:raw", "byte:byte", "", 3), ("byte:byte", "jis:utf-8", "1b2442", 2), ("byte:byte", "ascii,3f:ascii", "", 3), ("byte:byte", "bsdconv:raw", "3031", 2), ("byte:byte", "ascii-named-html-entity,byte:byte", "26676745", 1)]
def check():
    C = []; d = TIER != "quick"; T = 3000 if d else 300
    for c in M:
        C.append(Cfg("modes-" + c, "modes.c", dict(n=2 + d, pieces=2, conv=c, lim=5, item=ITEM.get(c, 4)), weight=15, time=T, covers=("hold", "automalloc", "size", "partial", "file", "fd", "null") if c in M[:3] else ()))
    for c, p, n in PRE: C.append(Cfg("modes-%s-%s" % (c, p), "modes.c", dict(n=n + d, pieces=2, conv=c, prefix=p, lim=5, item=60), weight=15, time=T))
    for c in ("utf-8:utf-8", "utf-8:utf-16be", "byte:byte", "pass:pass"): C.append(Cfg("small-" + c, "modes.c", dict(n=2 + d, pieces=2 + d, conv=c, lim=7, item=ITEM.get(c, 4), lo=0, hi=2), weight=20, time=T))
    for c, p in (("utf-8:utf-16be", "e4b8"), ("utf-8:utf-8", "e4b8"), ("pass:pass", "6162")): C.append(Cfg("short-%s-%s" % (c, p), "modes.c", dict(n=1 + d, pieces=2, conv=c, prefix=p, lo=4, hi=4, short=3), weight=6, time=T, covers=("short", "eintr") if c != "pass:pass" else ()))
    for a, b, p, n in PASS:
        for k in (1, 2, 3): C.append(Cfg("pass-%s-%s-%s-%d" % (a, b, p, k), "pass.c", dict(n=n + d, pieces=k, a=a, b=b, prefix=p), weight=10, time=T, covers=("chain",) if k > 1 and "null" not in a and "pass" not in a and n + len(p) > 2 and "25" not in p else ()))
    return Check("C09", C, bounds="2 to 3 arbitrary bytes (behind the listed prefixes) in 1 to 3 calls cut anywhere, a symbolic mode in every call, buffers of 0 to 7 bytes; the descriptor accepts any part of the first 3 writes or is interrupted", assumptions=["write() and fwrite() of the harness stand in for the system's and record what they are given", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
