"""WHITESPACE-DERAIL and WHITESPACE-RERAIL."""
from vt import *
def check():
    C = []; deep = TIER != "quick"; DR = "whitespace-derail:%swhitespace-rerail"
    def c(nm, conv, mode, pat, w=5, covers=(), **k): C.append(Cfg("%s-%s" % (nm, pat), "ws.c", dict(conv=conv, mode=mode, pat=pat, **k), weight=w, time=3000 if deep else 250, covers=covers))
    for p in ("u", "uu", "uuu", "ux", "xu", "uxu") + (("uuuu",) if deep else ()): c("id", "pass:" + DR % "" + ":pass", 0, p, len(p) * 4, ("white",)); c("derail", "pass:whitespace-derail:pass", 1, p, len(p) * 4, ("white",)); 
    c("id", "pass:" + DR % "" + ":pass", 0, "aaaaaa" if not deep else "aaaaaaa", 20, ("white",), alpha="a \t\n"); c("id-again", "pass:" + DR % "" + ":pass", 0, "aaa", 10, ("white",), alpha="a \n", rounds=2)
    c("upper", "pass:" + DR % "upper:" + ":pass", 2, "uuu" if deep else "uu", 20, ("white",)); c("upper", "pass:" + DR % "upper:" + ":pass", 2, "aaaaa", 20, ("white",), alpha="ab \r")
    c("upperlower", "pass:" + DR % "lower:upper:" + ":pass", 2, "aaaaa", 20, ("white",), alpha="ab \r")
    for p in ("aaaaa", "aaaaaa"): c("join", "pass:" + DR % "replace#0161.0162=0163:" + ":pass", 3, p, 20, ("joined",), alpha="ab \n"); c("drop", "pass:" + DR % "replace#0162:" + ":pass", 4, p, 20, alpha="ab \n")
    c("join-again", "pass:" + DR % "replace#0161.0162=0163:" + ":pass", 3, "aaa", 20, ("joined",), alpha="ab ", rounds=2)
    c("two-pairs", "pass:" + DR % ("insert#before=0178:replace#0178:") + ":pass", 0, "aaaa", 15, ("white",), alpha="a \n")
    c("rerail-only", "pass:whitespace-rerail:pass", 0, "uu", 10, ("white",)); c("rerail-only", "pass:whitespace-rerail:pass", 0, "ux", 10)
    return Check("C19", C, bounds="every list of up to 3 characters (any scalar value, items of other types between), every string of 5 to 6 characters over small alphabets with blanks; between the two modules nothing, a case mapping, a replacement that joins two characters, one that removes characters", assumptions=["malloc does not fail"])
