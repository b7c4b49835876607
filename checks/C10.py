"""Conversion strings: structure, packing, editing."""
from vt import *
# conversion, its expected packed form ("" = only equivalence is checked)
EQ = [("utf-8:utf-8", "ASCII,_UTF-8:_UTF-8,ASCII"), ("utf-8#loose:utf-8", "ASCII#loose,_UTF-8#loose:_UTF-8,ASCII"), ("utf-8#cesu&loose,3f#error:upper,lower:utf-8,3f", ""), ("utf-8,any#013f:nfc:utf-8", ""), ("utf-8:nfkd-casefold:utf-8", ""), ("escape,htmlentity,ncr,utf-8:utf-8", ""), ("utf-8:utf-8|utf-8:utf-16be", ""), ("utf-8:bsdconv-keyword,bsdconv|bsdconv,bsdconv-keyword:upper:utf-8", ""), ("UtF-8:Insert#Before=0141&after=0142:cp1252", ""), ("big5:utf-8", ""), ("utf-8:pass|upper|lower", ""), ("utf-8:pass|pass:upper:utf-8", "")]
def check():
    C = []; deep = TIER != "quick"; T = 3000 if deep else 250
    for s in ("1", "2", "11", "12", "21", "111", "211", "121", "112", "11011", "1011", "1101", "22") + (("3", "32", "222", "11021", "110111", "2202", "11011011") if deep else ("1021",)):
        for o in range(5):
            if o == 4 or len(s) > 1: C.append(Cfg("edit-%s-%d" % (s, o), "edit.c", dict(mode=0, shape=s, neu="new", op0=o, op1=o), weight=10, time=T, covers=()))
    for o in range(4): C.append(Cfg("edit-args-%d" % o, "edit.c", dict(mode=0, shape="121", neu="p#q,r#s", op0=o, op1=o), weight=10, time=T, covers=()))
    for n in range(1, 8 if not deep else 10): C.append(Cfg("syntax-%d" % n, "edit.c", dict(mode=1, n=n), weight=30, time=T, covers=("accepted", "rejected") if n > 1 else ()))
    for i, (c, w) in enumerate(EQ): C.append(Cfg("equiv-%d" % i, "edit.c", dict(mode=2, conv=c, want=w, n=2 if not deep else 3), weight=10, time=T, covers=()))
    for p, c, l, a in ((3, 1, 300, 2), (3, 1, 2, 700), (140, 1, 3, 2), (3, 140, 2, 1), (20, 20, 2, 1)) + (((300, 1, 2, 2), (3, 300, 1, 1), (3, 2, 5000, 5000)) if deep else ()): C.append(Cfg("large-%d-%d-%d-%d" % (p, c, l, a), "edit.c", dict(mode=3, phases=p, codecs=c, len=l, arg=a), weight=10, time=T, steps=50000000, covers=()))
    return Check("C10", C, bounds="every conversion string of up to 7 bytes; editing of every conversion of up to 4 phases with up to 2 codecs (arbitrary one-byte names, arguments on at most one codec) at every phase position -2n-1..n+2 and codec position -5..5; the same at the first, middle and last positions of conversions with 140 phases, 140 codecs, 20 by 20 of them, names of 300 and arguments of 700 characters; instances: the listed conversions", assumptions=["malloc does not fail"])
