"""ANY, RAW and the HTML links."""
from vt import *
def check():
    C = []; d = TIER != "quick"
    def c(nm, covers=(), w=10, **k): C.append(Cfg(nm, "anyraw.c", {x: y for x, y in k.items() if y is not None}, weight=w, time=3000 if d else 300, covers=covers, steps=20000000))
    for x, io, dflt in (("any", "OERR", "3F"), ("from", "IERR", "013F")):
        for pre in ("", "ascii,"):
            for args, rep, ctr in ((None, dflt, None), ("41", "41", None), ("0141.0342", "0141.0342", None), ("3f.2f.414243", "3F.2F.414243", None), ("error", dflt, io), ("error=miss", dflt, "MISS"), ("drop", "", None), ("drop&error", "", io), ("error=x&drop", "", "X"), ("41&drop", "", None), ("drop&41", "41", None), ("41&42&error", "42", io), ("ERROR=OERR&5a", "5A", "OERR"), ("Error=IERR&Drop", "", "IERR")):
                c("%s-%s%s" % (x, pre, args or "plain"), ("replaced",), fn=x, k=3 if x == "from" else 2 + d, max=3, pre=pre, args=args, rep=rep, ctr=ctr)
    c("raw", ("output",), fn="raw", max=6, k=2 + d)
    for pre in ("", "ascii,"):
        c("img-" + pre, ("output", "replaced"), fn="ascii-html-unicode-img", min=2, pre=pre, max=4, k=2); c("info-" + pre, ("output", "replaced"), fn="ascii-html-info", min=2, pre=pre, max=4, k=2)
    return Check("C34", C, 
        bounds="2 items of 1 to 3 (ANY), 4 (links, from 2) and 6 (RAW) arbitrary bytes, 3 arbitrary bytes for ANY as input cut anywhere; 14 argument lists; alone and behind ASCII",
        assumptions=["no empty items (no module makes one)", "CNS11643 is not built here, so ASCII-HTML-INFO links characters directly", "malloc does not fail"])
