"""Splitting the input over several calls changes nothing."""
from vt import *
# arbitrary bytes; (conversion, n)
ANYB = ["utf-8:utf-16be", "_utf-8#cesu&loose,ascii:utf-32be", "_utf-8#nul&super,any#013f&error:utf-32be", "utf-16be:utf-32be", "utf-16le:utf-8", "utf-32be:utf-16be", "utf-32le:utf-16le", "ucs-2:ucs-2be", "cp936:utf-8", "gb18030:utf-32be", "cp950:utf-32be", "shift-jis:utf-16be", "jis:utf-32be", "ibm-930:utf-16be", "ibm-933:utf-16be", "ibm-935:utf-16be", "ibm-937:utf-16be", "ibm-939:utf-16be", "escape,byte:bsdconv", "ansi-control,utf-8:bsdconv", "bsdconv:bsdconv", "bsdconv-keyword,bsdconv:bsdconv-keyword,bsdconv", "byte:byte", "pass:pass", "ascii,3f:ascii", "utf-8:ascii,3f", "utf-8:ascii,any#38", "utf-8:cp950,any#3f&error|cp950:utf-8", "ascii-named-html-entity,utf-8:utf-16be", "utf-8:cp1252,escape", "cp1251:cp1252", "utf-8:ibm-37,3f|ibm-37:utf-8", "utf-8:ucs-2be", "utf-8:ascii-html-info", "utf-8:ascii-named-html-entity", "utf-8:gb18030", "utf-8:null", "utf-8:raw"]
HEAVY = ["uao250:utf-32be", "cccii:utf-32be", "cp949:gb18030", "utf-8:nfd:utf-32be", "utf-8:width:utf-32be", "utf-8:trim-width#2:utf-32be", "hkscs2004:utf-32be", "big5-5c,big5:utf-16be", "utf-8:uao250|_cp950,ascii,3f:utf-8"]
# (conversion, alphabet, n)
ALPHA = [("escape,ascii:bsdconv", "%u\\xa6", 5), ("escape:pass#mark&for=unicode,byte|pass#unmark,utf-8:utf-8", "%uE8\\3", 4), ("ascii-numeric-html-entity,ascii:utf-32be", "&#x1;", 5), ("ascii-named-html-entity,ascii:utf-32be", "&amlt;", 5), ("ansi-control,ascii:bsdconv", "\x1b[1;ma", 5),
    ("ascii:upper:ascii", "ab1,", 5), ("ascii:replace#0161.0162=0163:ascii", "abc", 6), ("ascii:replace#0161=0162.0162&0162.0161=:ascii", "abc", 5), ("ascii:insert#before=010D&after=002C:bsdconv-keyword,bsdconv", "ab", 5), ("ascii:count#for=latin&$x:ascii", "ab1", 5), ("ascii:width:ascii", "ab1", 5), ("ascii:strings#min-len=2:ascii", "ab \t", 5), ("ascii:strings#for=latin&min-len=3&before=013C&after=013E:ascii", "ab \t", 5), ("ascii:pass#limit=2,upper:ascii", "ab1", 5), ("ascii:trim-width#3:ascii", "ab1", 5), ("ascii:pass#for=latin:insert#after=002e:pass", "ab1", 5), ("ascii:whitespace-derail:whitespace-rerail:ascii", "a \t\n", 5), ("ascii:score#with=latin1:ascii", "ab1", 4), ("ascii:lower:upper:lower:ascii", "aB1", 5), ("ascii:ascii|ascii:upper:ascii|ascii:ascii", "ab1", 5), ("ascii:ambiguous-pad:utf-8", "ab 1", 5),
    ("bsdconv:nfd:nfc:bsdconv", "0136", 5), ("bsdconv:nfkc:bsdconv", "01F9", 5)]
# prefix in hex followed by arbitrary bytes
PRE = [("utf-8:nfc:utf-32be", "61cc", 4), ("utf-8:nfd:utf-32be", "c3", 3), ("utf-8:nfkc:utf-32be", "efbe", 4), ("utf-8:casefold:utf-32be", "c4", 4), ("utf-8:ambiguous-pad:utf-32be", "d0", 4), ("utf-8:ambiguous-unpad:utf-32be", "d091", 5), ("utf-8:width:utf-16be", "e6", 3), ("utf-8:trim-width#2:utf-16be", "e38182", 4), ("utf-8:strings#for=cjk:utf-8", "e6b8", 4), ("utf-8:zh-fuzzy-tw:utf-8", "e7b8", 4), ("utf-8:big5,cp950-trans", "e4b8", 4), ("big5-5c,big5:utf-16be", "a5", 3), ("hkscs2004:utf-32be", "88", 3), ("utf-8:uao250|_cp950,ascii,3f:utf-8", "e5", 3), ("uao250:utf-32be", "a4", 3), ("cp949:gb18030", "b0", 3), ("cccii:utf-32be", "21", 3), ("jis:utf-32be", "1b2442", 5), ("jis:utf-32be", "1b242844", 6), ("ibm-930:utf-16be", "0e", 4), ("ibm-937:utf-16be", "0e45", 4), ("gb18030:utf-32be", "9030", 5), ("gb18030:utf-32be", "8130", 5), ("utf-8:jis", "e4b8", 4), ("utf-8:ibm-930", "61e4b8", 5), ("cp950:utf-32be", "a1", 3), ("_utf-8#cesu&loose,ascii:utf-32be", "eda0", 5), ("utf-16be:utf-32be", "d8", 4), ("utf-8:utf-8", "f0", 4), ("utf-8:whitespace-derail:whitespace-rerail:utf-8", "0ae3", 4)]
# intermediate modules and the UTF-16BE characters that matter to them
UNITS = [("ambiguous-pad", "0041,0411,00a0,00a1"), ("ambiguous-unpad", "0041,0411,00a0,00a1"), ("ambiguous-pad:ambiguous-unpad", "0041,0411,00a0"), ("zhtw-words", "4e00,500b,613f,9858"), ("zhcn", "500b,4e00,570b"), ("zhtw", "4e2a,4e00,56fd"), ("zh-bonus-phrase,zh-bonus:score", "4e00,500b,9fa5,63a1"), ("zhtw:zhtw-words", "4e00,4e2a,613f"), ("kana-phonetic", "304d,3083,3063,304b"), ("upsidedown", "0131,0323,0061"), ("nl2br", "000d,000a,0061"), ("win", "000d,000a,0061"), ("unix", "000d,000a,0061"), ("mac", "000d,000a,0061"), ("full", "0061,ff71,ff9e,ffe9"), ("half", "30a2,3099,ff21,3002"), ("nfd", "00e9,0300,0323,0061"), ("nfc", "0061,0300,0323,00e9"), ("nfc", "1100,1161,11a8,0061"), ("nfd", "ac00,11a8,ac01,0061"), ("nfkd", "fb01,0300,01c4,0323"), ("nfkc", "fb01,0300,0323,017f"), ("nfkd-casefold", "00df,0130,0345,0061"), ("casefold", "00df,0130,0061"), ("trim-width#3", "0061,4e00,0411,0300"), ("trim-width#3&ambi-as-wide", "0061,4e00,0411,0300"), ("width", "0061,4e00,0411,0300"), ("strings#for=cjk&min-len=2", "4e00,0061,4e2d"), ("strings", "0061,000a,0020,00e9"), ("zh-strings", "4e00,0061,4e2d"), ("insert#before=0141&after=0142", "0061,4e00"), ("split", "0061,4e00"), ("count#for=cjk", "4e00,0061"), ("score", "4e00,0061"), ("replace#014E00.0161=0141", "4e00,0061,0062"), ("replace#0161.0161.0162=0141", "0061,0062,0063"), ("pass#limit=2&for=cjk,upper", "4e00,0061"), ("nobom", "feff,0061,fffe"), ("whitespace-derail:zhtw-words:whitespace-rerail", "4e00,000a,500b,0020"), ("whitespace-derail:nfc:whitespace-rerail", "0061,0300,0020"), ("whitespace-derail:null:whitespace-rerail", "0061,0020,000a"), ("hanja", "4e00,f900,0061"), ("kanji", "4e00,f900,0061"), ("asciifold", "00c6,0061,2460"), ("upper:lower", "00df,0130,0061"), ("sub,super", "0061,0031,002b"), ("zh-fuzzy-tw", "4e00,53f0,4e2a"), ("bmp-trans-cn", "53f0,9f8d,0061"), ("whitespace-derail", "0061,0020,000a"), ("whitespace-rerail", "0061,0020,000a")]
def check():
    C = []; deep = TIER != "quick"
    for c in ANYB + (HEAVY if deep else []): C.append(Cfg("any-" + c, "chunk.c", dict(n=3, pieces=2, conv=c), jobs=1, weight=20, time=300, covers=("output",) if not c.endswith(":null") and not c.startswith("utf-32") else ()))
    for c, a, n in ALPHA: C.append(Cfg("alpha-%s-%s" % (c, a.encode().hex()), "chunk.c", dict(n=n, pieces=2, conv=c, alpha=a), jobs=1, weight=15, time=300, covers=("output",)))
    for c, p, n in PRE: C.append(Cfg("pre-%s-%s" % (c, p), "chunk.c", dict(n=n, pieces=2, conv=c, pre=p), jobs=1, weight=15, time=300))
    for m, u in UNITS: C.append(Cfg("units-%s-%s" % (m, u[:9]), "chunk.c", dict(n=6 if not deep else 8, pieces=2, conv="utf-16be:%s:utf-16be" % m, units=u), weight=10, time=300, covers=("output",) if "null" not in m else ()))
    C.append(Cfg("alpha-big5-defrag", "chunk.c", dict(n=5, pieces=2, conv="ansi-control,byte:big5-defrag:byte,ansi-control|pass#unmark,big5:utf-16be", ahex="1b5b6da4e9"), weight=30, time=300, covers=("output",)))
    C.append(Cfg("three-utf-8", "chunk.c", dict(n=3, pieces=3, conv="utf-8:utf-16be"), weight=15, time=300))
    C.append(Cfg("four-utf-8", "chunk.c", dict(n=4, pieces=4, conv="utf-8:utf-16be", pre="f09f9880"), weight=15, time=300))
    for c in ("utf-8:utf-16be", "cp936:utf-8", "utf-16le:utf-8", "escape,byte:bsdconv", "gb18030:utf-32be", "utf-8:cp950,any#3f&error|cp950:utf-8"):
        C.append(Cfg("late-" + c, "chunk.c", dict(n=3, pieces=1, lateflush=1, conv=c), weight=8, time=300))
    for nm, k in (("pass", dict(conv="pass:pass", unit="61", reps=66000, id=1)), ("utf8", dict(conv="utf-8:utf-8", unit="c3a9", reps=300, id=1, lo=1, hi=127)), ("utf8-64k", dict(conv="utf-8:utf-8", unit="61", reps=66000, id=1, lo=1, hi=127, pos=1, cut=6)),
                  ("item", dict(conv="bsdconv:bsdconv", unit="4142", reps=300, pre="3031", post="0a")), ("jis", dict(conv="jis:utf-8", unit="3021", reps=400, pre="1b2442")), ("nfc", dict(conv="utf-8:nfc:utf-8", unit="cc81", reps=300, pre="65", lo=1, hi=127)), ("strings", dict(conv="utf-8:strings#min-len=300:utf-8", unit="61", reps=400, lo=1, hi=127)),
                  ("ws", dict(conv="utf-8:whitespace-derail:whitespace-rerail:utf-8", unit="20", reps=300, id=1, lo=1, hi=127)), ("zeros", dict(conv="ascii-numeric-html-entity,utf-8:utf-8", unit="30", reps=300, pre="2623", post="36353b", lo=1, hi=127)), ("two", dict(conv="utf-8:utf-16be|utf-16be:utf-8", unit="c3a9", reps=300, id=1, lo=1, hi=127)), ("phases", dict(conv="utf-8" + ":pass" * 140 + ":utf-8", unit="c3a9", reps=8, id=1, lo=1, hi=127)), ("conversions", dict(conv="|".join(["ascii:ascii"] * 12), unit="62", reps=8, id=1, lo=1, hi=127)), ("codecs", dict(conv=",".join(["ascii"] * 20) + ",utf-8:" + ",".join(["pass#for=cns11643"] * 40) + ",utf-8", unit="c3a9", reps=8, id=1, lo=1, hi=127)), ("insert", dict(conv="utf-8:insert#after=0163:utf-8", unit="61", reps=300, lo=1, hi=127)), ("count", dict(conv="utf-8:count#ierr:utf-8", unit="61", reps=300, lo=1, hi=127, count=1))):
        C.append(Cfg("long-" + nm, "long.c", k, weight=20, time=400, steps=2000000000, covers=("output",)))
    if deep:
        for c in C: c.time = 3000
        for c, a, n in ALPHA: C.append(Cfg("deep-%s-%s" % (c, a.encode().hex()), "chunk.c", dict(n=n + 1, pieces=2, conv=c, alpha=a), weight=30, time=3000))
        for c in ("utf-8:utf-16be", "utf-16be:utf-32be", "utf-16le:utf-8", "cp936:utf-8", "gb18030:utf-32be", "jis:utf-32be", "ibm-930:utf-16be"): C.append(Cfg("deep-" + c, "chunk.c", dict(n=4, pieces=2, conv=c), weight=60, time=3000))
    return Check("C06", C, bounds="inputs of 300 to 66000 characters with one arbitrary byte near the beginning, the middle or the end, cut at 1, 255..257, 4096, 65535..65537 and before the last byte, through 12 conversions and 3 of up to 140 phases or 80 codecs; every input of 3 bytes (with the listed fixed prefixes up to 6 bytes, over the listed small alphabets 4 to 6 characters, for every intermediate module 3 characters out of 2-4 that matter to it) cut into 2 calls at every position (UTF-8 also into 3 and 4 calls), pieces may be empty; also one piece followed by a flush-only call", assumptions=["each call gets its own input block, released by the library", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
