"""EBCDIC code pages with shift states."""
from vt import *
import tabgen
N = ("930", "933", "935", "937", "939")
def pre(b):
    for n in N:
        S, D, T = tabgen.Trie(), tabgen.Trie(), tabgen.Trie()
        t, s = tabgen.read_table(b.src + "/modules/from/IBM-%s.txt" % n)
        for k, v in s: S.add(bytes.fromhex(k), [int(v[3:], 16)])
        for k, v in t.items(): (D if len(k) == 2 else S).add(k, tabgen.cps(v))
        t, s = tabgen.read_table(b.src + "/modules/to/IBM-%s.txt" % n)
        for k, v in s:
            if v not in ("?0E", "?0F"): T.add(bytes.fromhex(k), bytes.fromhex(v[1:]))  # the shift codes stand for no character
        tabgen.header(b.dir + "/ibm_%s.h" % n, [S, D, T])
def check():
    C = []; d = TIER != "quick"
    for n in N:
        def c(nm, conv, pat, covers=(), w=10, **k): C.append(Cfg("%s-%s-%s" % (nm, n, pat) + "".join("-%s%s" % x for x in k.items() if x[0] not in ("to",)), "ebcdic.c", dict(conv=conv % n, pat=pat, **k), ('TABLE="ibm_%s.h"' % n,), weight=w, time=3000 if d else 300, covers=covers))
        for p in ("b", "ob", "obi", "obbb"): c("from", "ibm-%s:utf-32be", p, ("double",) if p == "obbb" else (), cut=1) if p != "obbb" or d or n == "939" else (c("from", "ibm-%s:utf-32be", p, ("double", "alone")) if n != "933" else 0)
        c("from", "ibm-%s:utf-32be", "bbb" if n == "939" or d else "bb"); c("from", "ibm-%s:utf-32be", "obibb"); c("from", "ibm-%s:utf-32be", "obbi", cut=1) if d or n in ("933", "930") else 0
        for a in (1, 2): c("from", "ibm-%s:utf-32be", "bb" if a == 2 or d else "b", again=a)
        for p in ("u", "du", "ud"): c("to", "pass:ibm-%s", p, ("single", "double", "error")[:1] if p == "u" else ("double",), 20, to=1)
        c("to", "pass:ibm-%s", "u", ("error",), 20, to=1, hi=0x10ffff); c("to", "pass:ibm-%s", "dx", ("double",), to=1); c("to", "pass:ibm-%s", "xd", to=1)
        for q in (0, 1):
            c("to", "pass:ibm-%s", "******", ("single", "double", "error"), to=1, cut=q); c("to", "pass:ibm-%s,any#6f", "*****", ("single", "double", "error"), to=1, cut=q, any=0x6f)
            c("to", "pass:ibm-%s", "ssd", to=1, cut=q); c("to", "pass:ibm-%s", "dns", to=1, cut=q)
        for q in ("obb", "bobib") + (("obbb",) if d else ()): C.append(Cfg("rt-%s-%s" % (n, q), "ebcdic.c", dict(rt=1, page="ibm-" + n, pat=q), ('TABLE="ibm_%s.h"' % n,), weight=20, time=3000 if d else 300, covers=("text",)))
        for a in (1, 2): c("to", "pass:ibm-%s", "***", to=1, again=a)
    return Check("C21", C, prebuild=pre, bounds="IBM-930, 933, 935, 937, 939: input of 1 to 4 bytes with a shift at chosen places and cut anywhere, output of every scalar value alone, behind and before a double-byte character, every item of up to 3 bytes, every sequence of 6 out of a single-byte, a double-byte and an unmapped character, taken at once or item by item, with and without a second codec, after an abandoned conversion; what was decoded from two bytes encoded and decoded again", assumptions=["the code pages themselves are the tables in modules/from and modules/to, read by an independent parser (no other source for IBM-930 to 939 is installed)", "libc memory/string/file functions are modelled by the engine", "malloc does not fail"])
