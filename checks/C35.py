"""ANSI control sequences among bytes."""
from vt import *
def check():
    C = []; d = TIER != "quick"
    def c(nm, covers=(), w=10, **k): C.append(Cfg(nm, "ansi.c", k, weight=w, time=3000 if d else 300, covers=covers, steps=20000000))
    U = "af,e061,61,1b5b6d,1b5b316d"
    for f in ("ansi", "raw"):
        c(f, ("sequence", "unfinished"), fn=f, n=5 + d); c(f + "-in", ("sequence", "unfinished"), fn=f, n=4 + d, fill=3)
        for k in (27, 28, 29, 30): c("%s-long%d" % (f, k), ("sequence",), fn=f, n=3, fill=k)
        c(f + "-units", ("sequence", "unfinished"), fn=f, n=4 + d, units="1b,5b,4f,6d,31")
    for f in ("defrag", "text"):
        c(f, ("sequence", "unfinished"), fn=f, n=4 + d); c(f + "-units", ("sequence", "moved"), fn=f, n=4 + d, units=U); c(f + "-more", ("sequence", "moved", "unfinished"), fn=f, n=3 + d, units=U + ",1b,80,1b4f")
    for f in ("ansi", "defrag", "raw", "text"): c(f + "-flush", ("sequence", "unfinished"), fn=f, n=4 + d, flush=1); c(f + "-units-flush", ("sequence", "unfinished"), fn=f, n=3 + d, units=U + ",1b,1b5b", flush=1)
    c("items", ("moved",), fn="items", n=3 + d, max=3); c("items4", ("moved",), fn="items", n=4 + d, max=2)
    return Check("C35", C,
        bounds="%d arbitrary bytes (4 with BIG5-DEFRAG), %d behind the beginning of a sequence and 3 behind 27 to 30 characters of one, up to %d units of bytes and sequences, each text cut in two anywhere, and as two texts one after the other (4 bytes, 3 units); 3 items of up to 3 and 4 of up to 2 arbitrary bytes through BIG5-DEFRAG" % (5 + d, 4 + d, 4 + d),
        assumptions=["no empty items (no module makes one)", "malloc does not fail"])
