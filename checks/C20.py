"""REPLACE, INSERT, STRINGS, COUNT, PASS and NULL in intermediate phases."""
from vt import *
A3 = "0161.0162.0163"
MIX = "0161.0162.0361.01.014e00"
def check():
    C = []; d = TIER != "quick"; T = 3000 if d else 250
    def c(mods, pat, alpha="", covers=(), **k): C.append(Cfg("%s-%s%s" % (mods, pat, "-" + alpha if alpha else ""), "seqmod.c", dict(mods=mods, pat=pat, **(dict(alpha=alpha) if alpha else {}), **k), weight=3 * len(pat), time=T, covers=covers))
    n = "aaaaaa" + "a" * d
    R = ["0161=0162", "0161", "0161.0161=0163", "0161.0161.0161=0178", "0161.0162=0162.0161", "0161.0162.0161=0178.0179", "0161.0161.0162=", "0161.0162.0162=0178", "0161.0162.0163.0161=0178", "0161.0162=0163&0162.0161=0178", "0162.0162.0161=0161.0161"]
    for r in R: c("replace#" + r, n, A3 if r.count(".") < 4 else A3, ("replaced",))
    for r in ("0161.014E00=0361", "0361.01=0161", "01.01=014e00", "014E00.0361=01.01", "01610361=0162"): c("replace#" + r, n[1:], MIX, ("replaced",) if r != "01610361=0162" else ())
    c("replace#0161.0162=0163", "ub", covers=("begun",)); c("replace#0161.0162=0163", "bb"); c("replace#0161.0162=0163", "xx"); c("replace#010A=010D.010A", "ux"); c("replace#014e00=01", "xu")
    for m in ("replace#0161.0162=0163:replace#0163.0162=0161", "replace#0161.0161=0161:replace#0161.0161=0161", "replace#0161.0161.0162=0163:insert#before=0161", "insert#after=0161:replace#0161.0161=0162", "replace#0161=0162.0162:strings#min-len=3&for=unicode", "replace#0162:count#x&for=print:replace#0163.0161=0161", "replace#0161.0162.0161=0178:replace#0162.0161.0162=0179"): c(m, n, A3)
    for m in ("insert#before=0141", "insert#after=002C", "insert#before=01.0202&after=0303.014E00", "insert", "insert#after=&before=01"):
        for p in ("xx", "ux"): c(m, p)
        c(m, "aaa", MIX)
    for m in ("strings", "strings#min-len=2", "strings#min-len=3&before=013C&after=013E", "strings#for=byte", "strings#for=unicode&min-len=2&after=", "strings#for=1b&before=0109", "strings#min-len=0", "strings#for=thai&min-len=1&after=0121.0122", "strings#FOR=print&MIN-LEN=2&AFTER=010D.010A"):
        cv = ("run",) if "print" in m or "for" not in m.lower() else ()
        c(m, "ub" if "thai" in m else "bx", covers=()); c(m, n, "0161.010A.0361" if "byte" in m or "unicode" in m else "0161.010E01.1B61"); c(m, "xx"); c(m, "aaa", "0161.0109.1b5b", rounds=2)
    for m in ("count", "count#for=unicode", "count#x&for=byte", "count#for=print&total:count", "count#a:count#a&for=print", "count#A:count#a", "count#for=thai"):
        c(m, "xx"); c(m, "ub"); c(m, n, "0161.010A.0361", ("counted",) if "thai" not in m else ())
    for m in ("pass", "pass#for=unicode", "pass#limit=2", "pass#limit=1&for=byte", "pass#for=print~", "pass#limit=2~", "pass#limit=2&for=print~", "pass#for=byte~", "pass#LIMIT=3&FOR=unicode~", "pass#limit=0~"):
        t = dict(types=1) if "~" in m else {}; c(m, "xx", **t); c(m, "bb" if t else "bu"); c(m, "xb", **t); c(m, n, "0161.010A.0361"); c(m, "aaa", "0161.0162.0361", rounds=2)
    c("null", "xx"); c("null", "ub"); c("pass:null:insert#before=0161", "xx")
    for m in range(6): C.append(Cfg("mark-%d" % m, "mark.c", dict(mode=m, k=3 + d), weight=10, time=T, covers=("kept", "dropped") if m == 1 else ()))
    def l(nm, conv, **k): C.append(Cfg("long-" + nm, "long.c", dict(dict(conv=conv, unit="61", reps=400, lo=1, hi=127), **k), weight=10, time=T, steps=500000000, covers=("output",)))
    l("strings", "utf-8:strings#min-len=300&for=print:utf-8", runs=300, lo=1, hi=8); l("limit", "utf-8:pass#limit=300,null:utf-8", first=300); l("insert", "utf-8:insert#after=%s:utf-8" % ".".join(["0163"] * 280), put="63" * 280, reps=20); l("count", "utf-8:count#ierr:utf-8", count=1)
    l("replace", "utf-8:replace#%s=0142:utf-8" % ".".join(["0161"] * 280), key=280, reps=600)
    return Check("C20", C, bounds="every list of 2 arbitrary items of up to 3 bytes or scalar values, every list of 6 items out of 3 to 5 relevant ones, fed item by item; texts of 400 to 600 characters with one arbitrary one through STRINGS, PASS, INSERT, COUNT and REPLACE with numbers and lists of 280 to 300; about 45 module and argument combinations; every list of 3 items of up to 3 bytes through PASS#MARK | PASS#UNMARK", assumptions=["libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
