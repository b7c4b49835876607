"""Instances do not influence each other."""
from vt import *
import importlib.util, os
# conversion, fixed beginnings (hex), alphabet
PAIR = [("utf-8:utf-16be", "e4", "f09f9880", 2, 4), ("utf-16be:utf-32be", "d8", "d83dde00", 3, 4), ("utf-16le:utf-8", "", "3dd800de", 2, 4), ("utf-32be:utf-16be", "0000", "0001f600", 4, 4), ("gb18030:utf-32be", "8130", "9030", 3, 3), ("jis:utf-32be", "1b2442", "1b2849b1", 4, 4), ("jis:utf-32be", "1b2442", "41", 4, 1), ("utf-8:jis", "e4b8", "e3818261", 3, 4), ("ibm-939:utf-32be", "0e", "0e4541", 2, 3), ("utf-8:ibm-939", "e4b8", "e4b88061", 3, 4), ("cp950:utf-8", "a4", "a440", 2, 2), ("utf-8:nfc:utf-32be", "61cc", "65cc8161", 3, 4), ("utf-8:nfkd:utf-32be", "61cc", "efac8161", 3, 4), ("_utf-8#cesu&loose,ascii:utf-32be", "eda0", "eda0bdedb880", 3, 6), ("utf-8:upper:cp1252,escape", "c3", "c39fe282ac", 2, 5), ("ascii:width:ascii", "", "41e4", 2, 2), ("utf-8:cp950,any#3f&error|cp950:utf-8", "e4b8", "c3e4b880", 3, 4), ("utf-8:whitespace-derail:whitespace-rerail:utf-8", "20", "0a61", 2, 2), ("utf-8:null", "", "61", 1, 1)]
ALPHA = [("escape,ascii:bsdconv", "%u\\x6", 2, 2), ("escape:pass#mark&for=unicode,byte|pass#unmark,utf-8:utf-8", "%uE3", 2, 2), ("ascii-numeric-html-entity,ascii:utf-32be", "&#x1;", 2, 2), ("ansi-control,ascii:bsdconv", "\x1b[1m", 3, 2), ("ascii:replace#0161.0162=0163:ascii", "ab", 3, 2), ("ascii:strings#min-len=2:ascii", "a\t", 3, 3), ("ascii:trim-width#2:ascii", "a1", 3, 2), ("ascii:pass#limit=1,upper:ascii", "ab", 2, 2), ("ascii:insert#before=013C:bsdconv", "a", 2, 2), ("ascii:count#for=latin:ascii", "a1", 2, 2), ("ascii:score#with=latin1:ascii", "a1", 2, 2), ("bsdconv:bsdconv", "01,", 2, 2)]
UNITS = [("zhtw:zhtw-words", "4e00,500b,613f"), ("zhtw-words", "4e00,500b"), ("zhcn", "500b,4e00"), ("kana-phonetic", "304d,3083"), ("full", "ff71,ff9e"), ("half", "30a2,3099"), ("nfd", "ac00,0323"), ("nfc", "1100,1161,11a8"), ("nfd:nfc", "0300,0061,0323"), ("nfkc", "0061,0300"), ("casefold", "00df,0061"), ("trim-width#3", "4e00,0061"), ("width", "4e00,0061"), ("ambiguous-pad", "0411,0061"), ("strings#for=cjk&min-len=2", "4e00,0061"), ("zh-strings", "4e00,0061"), ("unix", "000d,000a"), ("whitespace-derail:whitespace-rerail", "0020,0061"), ("zh-bonus-phrase,zh-bonus:score", "4e00,500b"), ("upsidedown", "0131,0061"), ("big5-defrag", "0061,0041"), ("asciifold", "00c6,0061"), ("nobom", "feff,0061"), ("ambiguous-unpad", "0411,00a0"), ("zh-fuzzy-tw", "4e00,53f0"), ("split", "0061,4e00"), ("null", "0061")]
# different conversions side by side: shared modules, shared files, other arguments
MIX = [("ascii:replace#0161=0162:ascii", "ascii:replace#0161=0163:ascii"), ("ascii:upper:ascii", "ascii:lower:ascii"), ("ascii:pass#limit=1,upper:ascii", "ascii:pass#limit=2,upper:ascii"), ("ascii:strings#min-len=1:ascii", "ascii:strings#min-len=2:ascii"), ("ascii:insert#after=0141:ascii", "ascii:insert#before=0142:ascii"), ("ascii:trim-width#1:ascii", "ascii:trim-width#2:ascii"), ("_utf-8#nul,ascii:utf-8", "utf-8:ascii,any#013f&error"), ("ascii:utf-16be", "ascii:utf-16le"), ("ascii:any#41", "ascii:any#42"), ("ascii:count#for=latin:ascii", "ascii:count#for=cjk:ascii"), ("ascii:width:ascii", "ascii:width:null"), ("ascii,byte:byte,ascii", "byte:byte")]
def check():
    C = []; d = TIER != "quick"
    def c(nm, covers=("output",), w=10, **k):
        for mode in (0, 1, 2): C.append(Cfg("%s-%d" % (nm, mode), "indep.c", dict(k, mode=mode), weight=w, time=3000 if d else 300, covers=covers if mode == 0 else ()))
    for cv, px, py, nx, ny in PAIR: c("bytes-%s-%s" % (cv, px), () if cv.endswith("null") else ("output",), conv=cv, prex=px, prey=py, nx=nx + d, ny=ny)
    for cv, a, nx, ny in ALPHA: c("alpha-" + cv, ("output",) if "mark" not in cv else (), conv=cv, alpha=a, nx=nx + d, ny=ny)
    for m, u in UNITS: c("units-" + m, () if m == "null" else ("output",), conv="utf-16be:%s:utf-16be" % m, units=u, nx=4 + 2 * d, ny=2 if len(u) > 10 and not d else 4)
    for a, b in MIX: c("mix-%s-%s" % (a, b), (), conv=a, conv2=b, alpha="a1", nx=2 + d, ny=2)
    return Check("C29", C, bounds="two instances of 19 conversions of bytes (fixed beginnings followed by one or two arbitrary bytes; a fixed text in the other instance), of 12 over small alphabets and of 27 intermediate modules (2 units of 2-3 that matter to the module, in both instances), of 12 pairs of different conversions; first instance's text cut anywhere, second's in the middle; calls A1 B1 A2 B2 or A1 B1 B2 A2, the second instance living before and after or only as long as it is used; the rest of the second conversion, or a whole life of the second instance, at every allocation and release (the first 200) inside the first one's last call", assumptions=["switches inside a call happen where memory is allocated or released, and the other instance then runs a whole call: data races at other places are not seen", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
