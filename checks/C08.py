"""A reused instance behaves like a new one."""
from vt import *
import importlib.util, os
sp = importlib.util.spec_from_file_location("c06", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C06.py")); c06 = importlib.util.module_from_spec(sp); sp.loader.exec_module(c06)
# conversions that keep a state, the bytes that bring them there
PRE = [("utf-8:utf-16be", "f09f98"), ("_utf-8#cesu&loose,ascii:utf-32be", "eda080ed"), ("_utf-8#cesu,ascii:utf-32be", "eda080"), ("utf-16be:utf-32be", "d8"), ("utf-16be:utf-32be", "d83ddc"), ("utf-16le:utf-8", "3dd8"), ("utf-32be:utf-16be", "000101"), ("utf-32le:utf-16le", "010200"), ("ucs-2:ucs-2be", "4e"), ("gb18030:utf-32be", "9030"), ("gb18030:utf-32be", "813081"), ("cp936:utf-8", "b0"), ("cp950:utf-32be", "a1"), ("cp950:utf-32be", "fa"), ("shift-jis:utf-16be", "81"), ("jis:utf-32be", "1b2442"), ("jis:utf-32be", "1b244230"), ("jis:utf-32be", "1b2428"), ("jis:utf-32be", "1b284a"), ("ibm-930:utf-16be", "0e"), ("ibm-937:utf-16be", "0e45"), ("utf-8:ibm-930", "e4b880"), ("utf-8:ibm-937", "61e4b880"), ("utf-8:jis", "e4b880"), ("escape,byte:bsdconv", "2575"), ("escape,byte:bsdconv", "257534"), ("escape,byte:bsdconv", "5c30"), ("ansi-control,utf-8:bsdconv", "1b5b31"), ("bsdconv:bsdconv", "30313431"), ("bsdconv:bsdconv", "303134"), ("bsdconv-keyword,bsdconv:bsdconv-keyword,bsdconv", "30313431"), ("ascii-numeric-html-entity,ascii:utf-32be", "262378"), ("ascii-named-html-entity,ascii:utf-32be", "26616d70"), ("utf-8:nfc:utf-32be", "61cc80"), ("utf-8:nfc:utf-32be", "61cca3"), ("utf-8:nfd:utf-32be", "61cc80cca3"), ("utf-8:nfkc:utf-32be", "cc80"), ("utf-8:nfc:utf-32be", "e18480"), ("utf-8:nfc:utf-32be", "e18480e185a1"), ("utf-8:nfkd-casefold:utf-32be", "c3a9"), ("utf-8:casefold:utf-32be", "c4b0"), ("utf-8:ambiguous-pad:utf-32be", "d091"), ("utf-8:ambiguous-unpad:utf-32be", "d09120"), ("utf-8:trim-width#2:utf-16be", "6161"), ("utf-8:strings#for=cjk:utf-8", "e6b880"), ("utf-8:strings#min-len=3:utf-8", "6161"), ("utf-8:pass#limit=2,upper:utf-8", "6161"), ("utf-8:replace#0161.0162=0163:utf-8", "61"), ("utf-8:insert#before=010D:utf-8", "61"), ("utf-8:whitespace-derail:whitespace-rerail:utf-8", "610a20"), ("utf-8:whitespace-derail:zhtw:whitespace-rerail:utf-8", "e4b88d0a"), ("ansi-control,byte:big5-defrag:byte,ansi-control", "a41b5b6d"), ("utf-8:score:utf-8", "e4b880"), ("utf-8:width:utf-8", "e4b880"), ("utf-8:zhtw,zhtw-words:utf-8", "e4b8ad"), ("utf-8:ascii-named-html-entity", "c3"), ("utf-8:uao250|_cp950,ascii,3f:utf-8", "e4b8"), ("big5-5c,big5:utf-16be", "a5"), ("hkscs2004:utf-32be", "8862"), ("utf-8:utf-8|utf-8:upper:utf-8", "c3"), ("utf-8:count#for=latin:utf-8", "61"), ("utf-8:3f|pass:pass", "c3")]
def check():
    C = []; deep = TIER != "quick"
    for c, p in PRE: n = len(p) // 2; C.append(Cfg("pre-%s-%s" % (c, p), "reuse.c", dict(conv=c, prex=p, nx=n + (1 if deep else 0), ny=2), jobs=1, weight=20, time=3000 if deep else 300, covers=()))
    # the rest of an interrupted sequence comes after the initialization
    for c, p, q in (("utf-8:utf-16be", "f09f", "9880"), ("gb18030:utf-32be", "8130", "8130"), ("utf-16be:utf-32be", "d83d", "de00"), ("cp936:utf-8", "b0", "a1"), ("jis:utf-32be", "1b2442", "3021"), ("ibm-930:utf-16be", "0e", "4581"), ("escape,byte:bsdconv", "2575", "34453030"), ("utf-8:nfc:utf-32be", "61", "cc80"), ("utf-8:nfd:utf-32be", "61cca3", "cc80"), ("bsdconv:bsdconv", "3031", "3431"), ("ascii-named-html-entity,ascii:utf-32be", "26616d", "703b"), ("hkscs2004:utf-32be", "88", "62"), ("cp950:utf-32be", "fa", "40")):
        C.append(Cfg("rest-%s" % c, "reuse.c", dict(conv=c, prex=p, nx=len(p) // 2, prey=q, ny=len(q) // 2 + 1), jobs=1, weight=12, time=3000 if deep else 300, covers=()))
    for c in c06.ANYB: C.append(Cfg("any-" + c, "reuse.c", dict(conv=c, nx=1 if not deep else 2, ny=1 if not deep else 2), jobs=1, weight=15, time=3000 if deep else 300, covers=()))
    for c, a, n in c06.ALPHA: C.append(Cfg("alpha-%s-%s" % (c, a.encode().hex()), "reuse.c", dict(conv=c, alpha=a[:3] if len(a) > 3 and not deep else a, nx=3, ny=2), jobs=1, weight=15, time=3000 if deep else 300, covers=()))
    for m, u in c06.UNITS: C.append(Cfg("units-%s-%s" % (m, u[:9]), "reuse.c", dict(conv="utf-16be:%s:utf-16be" % m, units=u, nx=4 if not deep else 6, ny=4), weight=10, time=3000 if deep else 300, covers=("output",) if "null" not in m else ()))
    C.append(Cfg("alpha-big5-defrag", "reuse.c", dict(conv="ansi-control,byte:big5-defrag:byte,ansi-control", ahex="1b6da4", nx=3, ny=2), weight=15, time=300, covers=()))
    return Check("C08", C, bounds="first use: the listed prefixes%s, every text of 1-2 bytes, or of 2-3 characters of a small alphabet (one for every intermediate module), abandoned with the output collected, kept or flushed, in one or several calls; second use: every text of 1-2 bytes (2 over the alphabet), also the rest of an interrupted sequence plus one byte" % (" and one more arbitrary byte" if deep else ""), assumptions=["malloc does not fail", "libc memory/string/file functions are modelled by the engine"])
